//! All shapes up to a depth, each with boundary values.
use crate::cfg::{Cfg, NT};
use crate::shape::{PayS, Shape, St, S};
use crate::tok::N;
use crate::val::{Pay, Val};

#[derive(Clone)]
pub struct TV {
    pub s: S,
    pub v: Vec<Val>,
}

pub fn leak(s: Shape) -> S {
    Box::leak(Box::new(s))
}
pub fn leak_names(n: &[N]) -> &'static [N] {
    Box::leak(n.to_vec().into_boxed_slice())
}
pub fn st(name: N, f: &[(N, S)], deny: bool) -> St {
    St {
        name,
        fields: leak_names(&f.iter().map(|x| x.0).collect::<Vec<_>>()),
        shapes: f.iter().map(|x| x.1).collect(),
        default: f.iter().map(|_| None).collect(),
        deny,
    }
}

fn tv(s: Shape, v: Vec<Val>) -> TV {
    TV { s: leak(s), v }
}

/// The texts one edit away from the name, and others that could be taken for it.
pub fn near(n: &str) -> Vec<N> {
    let c: Vec<char> = n.chars().collect();
    let mut out: Vec<String> = Vec::new();
    let put = |v: Vec<char>| v.into_iter().collect::<String>();
    for i in 0..=c.len() {
        for x in [' ', 'x', '\0', ':', '.', '_', 'A'] {
            let mut v = c.clone();
            v.insert(i, x);
            out.push(put(v));
        }
        if i < c.len() {
            let mut v = c.clone();
            v.remove(i);
            out.push(put(v));
            for x in ['o', 'A', if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() }] {
                let mut v = c.clone();
                v[i] = x;
                out.push(put(v));
            }
        }
        if i + 1 < c.len() {
            let mut v = c.clone();
            v.swap(i, i + 1);
            out.push(put(v));
        }
    }
    for f in ["m::{}", "{}::m", "crate::{}", "::{}", "a.{}", "{}.a", "a/{}", "r#{}", "\"{}\"", "\u{feff}{}", "{}\n", "\t{}", "{}{}", "dyn {}", "{}<>", "&{}", "@{}", "#{}", "${}", "{}s", "{}[]", "{}()", "${0}", "n{}n"] {
        out.push(f.replace("{}", n));
    }
    out.push(n.to_uppercase());
    out.push(n.to_lowercase());
    out.push(c.iter().rev().collect());
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| x != n && seen.insert(x.clone()));
    out.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
}

pub fn u8s() -> TV {
    tv(Shape::U8, vec![Val::U8(7), Val::U8(0)])
}

/// Every kind of leaf, with its boundary values.
pub fn leaves() -> Vec<TV> {
    let txt = |s: &str| Val::Str(s.into());
    vec![
        tv(Shape::Bool, vec![Val::Bool(true), Val::Bool(false)]),
        u8s(),
        tv(Shape::Str, vec![txt("x"), txt(""), txt("Alpha"), txt("q\"\\\n\u{1f600}")]),
        tv(Shape::Unit, vec![Val::Unit]),
        tv(Shape::UnitStruct("Us"), vec![Val::UnitStruct("Us")]),
        tv(Shape::I8, vec![Val::I8(-128), Val::I8(127)]),
        tv(Shape::I16, vec![Val::I16(i16::MIN), Val::I16(1)]),
        tv(Shape::I32, vec![Val::I32(i32::MIN), Val::I32(70000)]),
        tv(Shape::I64, vec![Val::I64(i64::MIN), Val::I64(i64::MAX), Val::I64(5)]),
        tv(Shape::I128, vec![Val::I128(i128::MIN), Val::I128(i128::MAX), Val::I128(-1)]),
        tv(Shape::U16, vec![Val::U16(u16::MAX), Val::U16(255)]),
        tv(Shape::U32, vec![Val::U32(u32::MAX), Val::U32(3)]),
        tv(Shape::U64, vec![Val::U64(u64::MAX), Val::U64(1 << 32)]),
        tv(Shape::U128, vec![Val::U128(u128::MAX), Val::U128(1 << 64), Val::U128(9)]),
        tv(Shape::F32, vec![Val::F32(1.5f32.to_bits()), Val::F32(f32::MAX.to_bits()), Val::F32((-0.0f32).to_bits()), Val::F32(3f32.to_bits())]),
        tv(Shape::F64, vec![Val::F64(0.1f64.to_bits()), Val::F64(f64::MIN_POSITIVE.to_bits()), Val::F64(2f64.to_bits())]),
        tv(Shape::Char, vec![Val::Char('a'), Val::Char('\u{1f600}')]),
        tv(Shape::BorrowStr, vec![txt("borrowed"), txt("")]),
        tv(Shape::Ident, vec![txt("V1")]),
        tv(Shape::Bytes, vec![Val::Bytes(vec![0, 255, 7]), Val::Bytes(vec![])]),
        tv(Shape::BorrowBytes, vec![Val::Bytes(vec![1, 2])]),
        tv(
            Shape::Any,
            vec![
                Val::U64(3),
                Val::I64(-3),
                txt("any"),
                Val::Bool(false),
                Val::Unit,
                Val::F64(0.25f64.to_bits()),
                Val::Seq(vec![Val::U64(1), txt("e")], true),
                Val::Map(vec![(txt("k"), Val::U64(1)), (txt("value"), Val::Unit)], true),
                Val::Map(vec![], true),
            ],
        ),
        tv(Shape::Human, vec![Val::Human]),
    ]
}

/// One leaf of each way of being read.
pub fn few_leaves() -> Vec<TV> {
    leaves()
        .into_iter()
        .filter(|t| {
            matches!(t.s, Shape::U8 | Shape::Str | Shape::Unit | Shape::F64 | Shape::Human | Shape::Bytes | Shape::Any | Shape::I128)
        })
        .collect()
}

/// How values of the components are combined: the first `k` of each.
fn cut(t: &TV, k: usize) -> Vec<Val> {
    t.v.iter().take(k).cloned().collect()
}

pub const ENUM: N = "En";
pub fn enum_of(t: &TV, k: usize) -> TV {
    let names = leak_names(&["V0", "V1", "V2", "V3", "T0", "S0", "T1", "value"]);
    let u = u8s().s;
    let s = Shape::Enum(
        ENUM,
        names,
        vec![
            PayS::Unit,
            PayS::New(t.s),
            PayS::Tup(vec![t.s, u]),
            PayS::Struct(st("En", &[("a", t.s), ("b", u)], false)),
            PayS::Tup(vec![]),
            PayS::Struct(st("En", &[], false)),
            PayS::Tup(vec![t.s]),
            PayS::New(t.s),
        ],
    );
    let mut v = Vec::new();
    for (i, x) in cut(t, k).into_iter().enumerate() {
        let w = Val::U8(7);
        v.push(Val::Var(ENUM, 1, "V1", Pay::New(Box::new(x.clone()))));
        v.push(Val::Var(ENUM, 2, "V2", Pay::Tup(vec![x.clone(), w.clone()])));
        v.push(Val::Var(ENUM, 3, "V3", Pay::Struct(vec![("a", x.clone()), ("b", w)])));
        if i == 0 {
            v.push(Val::Var(ENUM, 0, "V0", Pay::Unit));
            v.push(Val::Var(ENUM, 4, "T0", Pay::Tup(vec![])));
            v.push(Val::Var(ENUM, 5, "S0", Pay::Struct(vec![])));
            v.push(Val::Var(ENUM, 6, "T1", Pay::Tup(vec![x.clone()])));
            v.push(Val::Var(ENUM, 7, "value", Pay::New(Box::new(x))));
        }
    }
    tv(s, v)
}

/// Every constructor applied to `t`.
pub fn wraps(t: &TV, k: usize) -> Vec<TV> {
    let mut out = Vec::new();
    let xs = cut(t, k);
    let x = xs[0].clone();
    let y = xs.last().unwrap().clone();
    let u = u8s().s;
    let w = Val::U8(7);
    let txt = |s: &str| Val::Str(s.into());
    let b = |v: &Val| Box::new(v.clone());
    out.push(tv(Shape::Opt(t.s), {
        let mut v = vec![Val::None];
        v.extend(xs.iter().map(|x| Val::Some(b(x))));
        v
    }));
    out.push(tv(Shape::Newtype("Nt", t.s), xs.iter().map(|x| Val::Newtype("Nt", b(x))).collect()));
    out.push(tv(Shape::Seq(t.s), vec![Val::Seq(vec![x.clone(), y.clone()], true), Val::Seq(vec![], true), Val::Seq(vec![x.clone()], true)]));
    out.push(tv(Shape::Tuple(vec![t.s, u]), xs.iter().map(|x| Val::Tuple(vec![x.clone(), w.clone()])).collect()));
    out.push(tv(Shape::Tuple(vec![t.s]), vec![Val::Tuple(vec![x.clone()])]));
    out.push(tv(Shape::TupleStruct("Ts", vec![u, t.s]), xs.iter().map(|x| Val::TupleStruct("Ts", vec![w.clone(), x.clone()])).collect()));
    out.push(tv(
        Shape::Map(leak(Shape::Str), t.s),
        vec![
            Val::Map(vec![(txt("k"), x.clone()), (txt("value"), y.clone())], true),
            Val::Map(vec![], true),
            Val::Map(vec![(txt("value"), x.clone())], true),
        ],
    ));
    out.push(tv(
        Shape::Struct(st("St", &[("a", t.s), ("b", u)], false)),
        xs.iter().map(|x| Val::Struct("St", vec![("a", x.clone()), ("b", w.clone())])).collect(),
    ));
    out.push(tv(
        Shape::Struct(st("Sv", &[("b", u), ("value", t.s)], true)),
        xs.iter().map(|x| Val::Struct("Sv", vec![("b", w.clone()), ("value", x.clone())])).collect(),
    ));
    out.push(enum_of(t, k));
    out
}

/// A struct, all of whose fields have names close to the keys of the envelopes.
fn near_struct() -> TV {
    let mut names: Vec<N> = vec!["b", "value"];
    for n in ["type", "~", "", "a", "t", "c"] {
        for (i, x) in near(n).into_iter().enumerate() {
            if i % 5 == 0 && !names.contains(&x) && !["type", "~", "", "a"].contains(&x) {
                names.push(x);
            }
        }
    }
    for x in ["Type", "TYPE", "tYpe", "type ", " type", "typ", "types", "r#type", "A", "~~"] {
        if !names.contains(&x) {
            names.push(x);
        }
    }
    let f: Vec<(N, S)> = names.iter().map(|n| (*n, u8s().s)).collect();
    tv(
        Shape::Struct(st("Near", &f, true)),
        vec![Val::Struct("Near", names.iter().enumerate().map(|(i, n)| (*n, Val::U8(i as u8))).collect())],
    )
}

/// Shapes without a component, or with one fixed.
pub fn fixed() -> Vec<TV> {
    let txt = |s: &str| Val::Str(s.into());
    let u = u8s().s;
    let unit_enum = Shape::Enum("Ue", leak_names(&["A", "B"]), vec![PayS::Unit, PayS::Unit]);
    let ue = leak(unit_enum);
    let a = Val::Var("Ue", 0, "A", Pay::Unit);
    let bb = Val::Var("Ue", 1, "B", Pay::Unit);
    let entry = |k: Val| Val::Map(vec![(k, Val::U8(1))], true);
    let map = |k: Shape, vs: Vec<Val>| {
        let mut v: Vec<Val> = vs.iter().cloned().map(entry).collect();
        v.push(Val::Map(vs.into_iter().map(|k| (k, Val::U8(2))).collect(), true));
        tv(Shape::Map(leak(k), u), v)
    };
    let mut dflt = st("Sd", &[("a", u), ("o", leak(Shape::Opt(u))), ("d", u)], false);
    dflt.default[2] = Some(Val::U8(99));
    vec![
        tv(Shape::Seq(u), vec![Val::Seq(vec![Val::U8(1), Val::U8(2)], false), Val::Seq(vec![], false)]),
        tv(Shape::Map(leak(Shape::Str), u), vec![Val::Map(vec![(txt("a"), Val::U8(1)), (txt("b"), Val::U8(2))], false), Val::Map(vec![], false)]),
        tv(Shape::Str, vec![Val::Display("shown".into())]),
        tv(Shape::Tuple(vec![]), vec![Val::Tuple(vec![])]),
        tv(Shape::TupleStruct("T0s", vec![]), vec![Val::TupleStruct("T0s", vec![])]),
        tv(Shape::Struct(st("S0s", &[], false)), vec![Val::Struct("S0s", vec![])]),
        tv(Shape::Struct(dflt), vec![
            Val::Struct("Sd", vec![("a", Val::U8(1)), ("o", Val::None), ("d", Val::U8(2))]),
            Val::Struct("Sd", vec![("a", Val::U8(1)), ("o", Val::Some(Box::new(Val::U8(3)))), ("d", Val::U8(99))]),
        ]),
        tv(Shape::Struct(st("Sk", &[("a", u)], false)), vec![Val::StructSkip("Sk", vec![("a", Val::U8(4))], "gone")]),
        tv(Shape::Struct(st("Many", &[("a", u), ("b", u), ("c", u), ("t", u), ("v", u), ("k", u), ("type", leak(Shape::Str)), ("~", u), ("", u)], false)), vec![
            Val::Struct("Many", vec![("a", Val::U8(1)), ("b", Val::U8(2)), ("c", Val::U8(3)), ("t", Val::U8(4)), ("v", Val::U8(5)), ("k", Val::U8(6)), ("type", txt("z")), ("~", Val::U8(8)), ("", Val::U8(9))]),
        ]),
        near_struct(),
        TV { s: ue, v: vec![a.clone(), bb.clone()] },
        map(Shape::Str, vec![txt("k"), txt("")]),
        map(Shape::BorrowStr, vec![txt("k"), txt("l")]),
        map(Shape::Newtype("Id", leak(Shape::Str)), vec![Val::Newtype("Id", Box::new(txt("k"))), Val::Newtype("Id", Box::new(txt("l")))]),
        TV { s: leak(Shape::Map(ue, u)), v: vec![entry(a.clone()), Val::Map(vec![(bb, Val::U8(1)), (a, Val::U8(2))], true)] },
        map(Shape::Char, vec![Val::Char('c'), Val::Char('d')]),
        map(Shape::U8, vec![Val::U8(1), Val::U8(2)]),
        map(Shape::I64, vec![Val::I64(-1), Val::I64(2)]),
        map(Shape::U128, vec![Val::U128(u128::MAX)]),
        map(Shape::Bool, vec![Val::Bool(true)]),
        map(Shape::Ident, vec![txt("k")]),
        map(Shape::Any, vec![txt("k"), txt("l")]),
        map(Shape::Human, vec![Val::Human]),
        map(Shape::Bytes, vec![Val::Bytes(vec![1])]),
    ]
}

/// Numbers around every power of two, floats of every size, characters of every width, and texts that look
/// like something else: each alone, and all of them in one sequence, map, struct and enum.
pub fn rich() -> Vec<TV> {
    let txt = |s: &str| Val::Str(s.into());
    let mut sets: Vec<(Shape, Vec<Val>)> = Vec::new();
    let unsigned = |bits: u32| -> Vec<u128> {
        let max = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
        let mut v: Vec<u128> = (0..bits).flat_map(|k| [(1u128 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2]).collect();
        v.extend([max, max - 1, max - 2, max / 10, max / 10 * 10, max / 3]);
        v.extend((0..39).filter_map(|k| 10u128.checked_pow(k)));
        v.retain(|x| *x <= max);
        v.sort();
        v.dedup();
        v
    };
    let signed = |bits: u32| -> Vec<i128> {
        let (lo, hi) = (i128::MIN >> (128 - bits), i128::MAX >> (128 - bits));
        let mut v: Vec<i128> = unsigned(bits - 1).into_iter().flat_map(|x| [x as i128, -(x as i128), -(x as i128) - 1]).collect();
        v.extend([lo, lo + 1, lo + 2, hi]);
        v.retain(|x| (lo..=hi).contains(x));
        v.sort();
        v.dedup();
        v
    };
    macro_rules! ints {
        ($($f:ident $s:ident $t:ident $bits:expr;)*) => { $(sets.push((Shape::$s, $f($bits).into_iter().map(|x| Val::$s(x as $t)).collect()));)* };
    }
    ints! { unsigned U8 u8 8; unsigned U16 u16 16; unsigned U32 u32 32; unsigned U64 u64 64; unsigned U128 u128 128;
    signed I8 i8 8; signed I16 i16 16; signed I32 i32 32; signed I64 i64 64; signed I128 i128 128; }
    let mut f: Vec<f64> = vec![0.0, -0.0, 0.1, 0.5, 1.5, 3.999999999999999, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::MIN_POSITIVE / 4.0, 5e-324, f64::EPSILON, 1.0 + f64::EPSILON, std::f64::consts::PI];
    for k in [1, 7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128, 1000] {
        f.extend([2f64.powi(k), 2f64.powi(k) - 1.0, -2f64.powi(k), 2f64.powi(-k)]);
    }
    f.extend((-25..25).map(|k| 10f64.powi(k)));
    let g: Vec<f32> = f.iter().map(|x| *x as f32).filter(|x| x.is_finite()).chain([f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::EPSILON, 16777215.0, 16777216.0]).collect();
    sets.push((Shape::F64, f.into_iter().map(|x| Val::F64(x.to_bits())).collect()));
    sets.push((Shape::F32, g.into_iter().map(|x| Val::F32(x.to_bits())).collect()));
    let c = ['\0', '\t', '\n', '\u{1b}', ' ', '"', '\'', '\\', '/', '0', '9', 'A', 'z', '`', '{', '\u{7f}', '\u{80}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}'];
    let mut texts: Vec<String> = c.iter().map(|c| c.to_string()).collect();
    texts.extend(c.iter().map(|c| format!("a{c}b")));
    texts.extend(
        [
            "", "  ", "null", "true", "false", "0", "1", "-1", "1.5", "1e3", "NaN", "()", "[]", "{}", "{\"type\":\"Beta\"}", "Some", "None", "Ok", "Alpha", "Beta", "alpha", "Alpha ", "type", "t", "c", "k", "v", "value",
            "Value", "content", "tag", "En", "V0", "V1", "\r\n", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}", "$serde_json::private::Number", "r#type", "Tr",
        ]
        .map(String::from),
    );
    texts.sort();
    texts.dedup();
    sets.push((Shape::Char, c.iter().map(|c| Val::Char(*c)).collect()));
    let all = |texts: &[String]| -> Vec<Val> { texts.iter().map(|s| txt(s)).collect() };
    sets.push((Shape::Str, all(&texts)));
    sets.push((Shape::BorrowStr, all(&texts)));
    sets.push((Shape::Ident, all(&texts)));
    let bytes: Vec<Val> = (0..=255u8).step_by(5).map(|b| vec![b]).chain(texts.iter().map(|s| s.as_bytes().to_vec())).map(Val::Bytes).collect();
    sets.push((Shape::Bytes, bytes.clone()));
    sets.push((Shape::BorrowBytes, bytes));
    let mut out = Vec::new();
    for (s, v) in sets {
        let s = leak(s);
        let names = leak_names(&(0..v.len()).map(|i| &*Box::leak(format!("f{i}").into_boxed_str())).collect::<Vec<N>>());
        let fields: Vec<(N, S)> = names.iter().map(|n| (*n, s)).collect();
        out.push(tv(Shape::Seq(s), vec![Val::Seq(v.clone(), true)]));
        out.push(tv(Shape::Tuple(vec![s; v.len()]), vec![Val::Tuple(v.clone())]));
        out.push(tv(Shape::Seq(leak(Shape::Opt(s))), vec![Val::Seq(v.iter().map(|v| Val::Some(Box::new(v.clone()))).collect(), true)]));
        out.push(tv(Shape::Map(leak(Shape::Str), s), vec![Val::Map(v.iter().enumerate().map(|(i, v)| (txt(names[i]), v.clone())).collect(), true)]));
        out.push(tv(Shape::Struct(st("Rich", &fields, true)), vec![Val::Struct("Rich", names.iter().copied().zip(v.iter().cloned()).collect())]));
        out.push(tv(
            Shape::Seq(leak(Shape::Enum(ENUM, leak_names(&["V0", "V1"]), vec![PayS::Unit, PayS::New(s)]))),
            vec![Val::Seq(v.iter().map(|v| Val::Var(ENUM, 1, "V1", Pay::New(Box::new(v.clone())))).collect(), true)],
        ));
        // as keys, but for those that a key of the envelope is equal to
        let keys: Vec<Val> = v.iter().filter(|v| !matches!(v, Val::Str(k) if ["", "a", "t", "c", "k", "v", "~", "type"].contains(&k.as_str()))).cloned().collect();
        if !matches!(s, Shape::F32 | Shape::F64) {
            out.push(tv(Shape::Map(s, leak(Shape::Bool)), vec![Val::Map(keys.iter().map(|v| (v.clone(), Val::Bool(true))).collect(), true)]));
        }
        out.push(TV { s, v });
    }
    // variants, fields and types with such names
    let names: Vec<N> = texts.into_iter().filter(|k| !["", "a", "t", "c", "k", "v", "~", "type"].contains(&k.as_str())).map(|s| &*Box::leak(s.into_boxed_str())).collect();
    let n = leak_names(&names);
    let u: S = leak(Shape::U8);
    let pays = || n.iter().enumerate().map(|(i, _)| if i % 2 == 0 { PayS::Unit } else { PayS::New(u) }).collect::<Vec<_>>();
    let vars: Vec<Val> = n.iter().enumerate().map(|(i, n)| Val::Var("null", i as u32, n, if i % 2 == 0 { Pay::Unit } else { Pay::New(Box::new(Val::U8(i as u8))) })).collect();
    let e = leak(Shape::Enum("null", n, pays()));
    out.push(tv(Shape::Seq(e), vec![Val::Seq(vars.clone(), true)]));
    out.push(TV { s: e, v: vars });
    let fields: Vec<(N, S)> = n.iter().map(|n| (*n, u)).collect();
    for deny in [false, true] {
        out.push(tv(Shape::Struct(st("{}", &fields, deny)), vec![Val::Struct("{}", n.iter().enumerate().map(|(i, n)| (*n, Val::U8(i as u8))).collect())]));
    }
    for (i, name) in n.iter().enumerate() {
        let b = |v: Val| Box::new(v);
        out.push(match i % 4 {
            0 => tv(Shape::UnitStruct(name), vec![Val::UnitStruct(name)]),
            1 => tv(Shape::Newtype(name, u), vec![Val::Newtype(name, b(Val::U8(1)))]),
            2 => tv(Shape::TupleStruct(name, vec![u, u]), vec![Val::TupleStruct(name, vec![Val::U8(1), Val::U8(2)])]),
            _ => tv(Shape::Struct(st(name, &[("f", u)], false)), vec![Val::Struct(name, vec![("f", Val::U8(1))])]),
        });
    }
    out
}

/// Values that are long, wide or deep, past where a counter, a limit or a cautious reservation may end.
pub fn big(max: usize) -> Vec<TV> {
    let u: S = leak(Shape::U8);
    let name = |p: &str, i: usize| -> N { Box::leak(format!("{p}{i}").into_boxed_str()) };
    let byte = |i: usize| Val::U8((i * 7 % 251) as u8);
    let text = |n: usize| Val::Str((0..n).map(|i| ['x', '\u{e9}', '"', '\u{1f600}'][i % 4]).collect());
    let mut out = rich();
    for n in [17, 257, 4097, 70000].into_iter().filter(|n| *n <= max) {
        out.push(tv(Shape::Seq(u), vec![Val::Seq((0..n).map(byte).collect(), true)]));
        out.push(tv(Shape::Map(leak(Shape::Str), u), vec![Val::Map((0..n).map(|i| (Val::Str(format!("k{i}")), byte(i))).collect(), true)]));
    }
    for n in [23, 24, 255, 256, 4097, 70000] {
        out.push(tv(Shape::Str, vec![text(n)]));
        out.push(tv(Shape::Bytes, vec![Val::Bytes((0..n).map(|i| (i % 256) as u8).collect())]));
    }
    for n in [13, 40, 257] {
        out.push(tv(Shape::Tuple(vec![u; n]), vec![Val::Tuple((0..n).map(byte).collect())]));
        let names: Vec<N> = (0..n).map(|i| name("field", i)).collect();
        let f: Vec<(N, S)> = names.iter().map(|n| (*n, u)).collect();
        out.push(tv(Shape::Struct(st("Wide", &f, true)), vec![Val::Struct("Wide", names.iter().enumerate().map(|(i, n)| (*n, byte(i))).collect())]));
    }
    // variants beyond what a byte counts
    let n = 300;
    let names: Vec<N> = (0..n).map(|i| name("Var", i)).collect();
    let pays = (0..n)
        .map(|i| match i % 4 {
            0 => PayS::Unit,
            1 => PayS::New(u),
            2 => PayS::Tup(vec![u, u]),
            _ => PayS::Struct(st("Va", &[("a", u)], false)),
        })
        .collect();
    let var = |i: usize| {
        let pay = match i % 4 {
            0 => Pay::Unit,
            1 => Pay::New(Box::new(byte(i))),
            2 => Pay::Tup(vec![byte(i), byte(i + 1)]),
            _ => Pay::Struct(vec![("a", byte(i))]),
        };
        Val::Var("Va", i as u32, names[i], pay)
    };
    let e = leak(Shape::Enum("Va", leak_names(&names), pays));
    let at = [0, 127, 128, 253, 254, 255, 256, 257, 258, 259, 299];
    out.push(TV { s: e, v: at.map(var).to_vec() });
    out.push(tv(Shape::Newtype("Nt", e), at.map(|i| Val::Newtype("Nt", Box::new(var(i)))).to_vec()));
    out.push(tv(Shape::Seq(e), vec![Val::Seq(at.map(var).to_vec(), true)]));
    // levels
    for n in [40, 300] {
        let mut d: Vec<(S, Val)> = (0..8).map(|_| (u, Val::U8(1))).collect();
        for i in 0..n {
            for (k, (s, v)) in d.iter_mut().enumerate() {
                let b = Box::new(v.clone());
                // one constructor at every level, or all of them by turns
                (*s, *v) = match if k == 7 { i % 7 } else { k } {
                    0 => (leak(Shape::Opt(s)), Val::Some(b)),
                    1 => (leak(Shape::Newtype("Nt", s)), Val::Newtype("Nt", b)),
                    2 => (leak(Shape::Seq(s)), Val::Seq(vec![*b], true)),
                    3 => (leak(Shape::Tuple(vec![*s, u])), Val::Tuple(vec![*b, Val::U8(2)])),
                    4 => (leak(Shape::Map(leak(Shape::Str), s)), Val::Map(vec![(Val::Str("k".into()), *b)], true)),
                    5 => (leak(Shape::Struct(st("St", &[("a", s), ("b", u)], false))), Val::Struct("St", vec![("a", *b), ("b", Val::U8(2))])),
                    _ => (leak(Shape::Enum("En", leak_names(&["A", "B"]), vec![PayS::Unit, PayS::New(s)])), Val::Var("En", 1, "B", Pay::New(b))),
                };
            }
        }
        out.extend(d.into_iter().map(|(s, v)| TV { s, v: vec![v] }));
    }
    out
}

/// Depth 0 is the leaves; each further level applies every constructor.
pub fn shapes(depth: usize) -> Vec<TV> {
    let mut all = leaves();
    all.extend(fixed());
    let mut last = leaves();
    let fixed = fixed();
    for d in 1..=depth {
        let mut next = Vec::new();
        let base: Vec<TV> = if d >= 3 { last.into_iter().filter(|t| few(t.s)).collect() } else { last };
        for t in &base {
            next.extend(wraps(t, if d == 1 { 4 } else { 2 }));
        }
        if d <= 2 {
            for t in &fixed {
                if d == 1 {
                    next.extend(wraps(t, 2));
                }
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

/// Whether the leaf of a (nested) shape is one of the few.
fn few(s: S) -> bool {
    match s {
        Shape::Opt(s) | Shape::Newtype(_, s) | Shape::Seq(s) | Shape::Map(_, s) => few(s),
        Shape::Tuple(v) => v.first().map_or(true, |s| few(s)),
        Shape::TupleStruct(_, v) => v.last().map_or(true, |s| few(s)),
        Shape::Struct(st) => st.fields.iter().zip(&st.shapes).all(|(n, s)| *n == "b" || few(s)),
        Shape::Enum(_, _, p) => p.iter().all(|p| match p {
            PayS::New(s) => few(s),
            _ => true,
        }),
        s => matches!(s, Shape::U8 | Shape::Str | Shape::Unit | Shape::F64 | Shape::Human | Shape::Bytes | Shape::Any | Shape::I128),
    }
}

/// All keys of all maps in the shape are read as text.
pub fn text_keys(s: S) -> bool {
    match s {
        Shape::Map(k, v) => text(k) && text_keys(v),
        Shape::Opt(s) | Shape::Newtype(_, s) | Shape::Seq(s) => text_keys(s),
        Shape::Tuple(v) | Shape::TupleStruct(_, v) => v.iter().all(|s| text_keys(s)),
        Shape::Struct(st) => st.shapes.iter().all(|s| text_keys(s)),
        Shape::Enum(_, _, p) => p.iter().all(|p| match p {
            PayS::Unit => true,
            PayS::New(s) => text_keys(s),
            PayS::Tup(v) => v.iter().all(|s| text_keys(s)),
            PayS::Struct(st) => st.shapes.iter().all(|s| text_keys(s)),
        }),
        Shape::Obj(_, slots) => slots.iter().all(|s| text_keys(s)),
        _ => true,
    }
}
fn text(s: S) -> bool {
    match s {
        Shape::Newtype(_, s) => text(s),
        Shape::Enum(..) | Shape::Str | Shape::BorrowStr | Shape::Ident | Shape::Any | Shape::Char | Shape::Human => true,
        _ => false,
    }
}
/// Has maps keyed by a type that is a number in compact formats.
pub fn human_keys(s: S) -> bool {
    let d = format!("{s:?}");
    d.contains("Map(Human") || d.contains("Map(Newtype(\"Id\", Human")
}

/// Trait objects inside containers, nested to a depth.
pub fn nested(cfgs: &[Cfg], inner: &[TV], depth: usize) -> Vec<TV> {
    let mut cur: Vec<TV> = inner.to_vec();
    let mut all = Vec::new();
    for _ in 0..depth {
        let mut next = Vec::new();
        for t in &cur {
            for c in cfgs {
                let slots: [S; NT] = [t.s, leak(Shape::U8)];
                let s = leak(Shape::Obj(*c, slots));
                let mut v: Vec<Val> = cut(t, 2).into_iter().map(|x| Val::Obj(*c, 0, Box::new(x))).collect();
                v.push(Val::Obj(*c, 1, Box::new(Val::U8(3))));
                let o = TV { s, v };
                next.extend(wraps(&o, 3));
                next.push(o);
            }
        }
        all.extend(next.iter().cloned());
        cur = next;
    }
    all
}
