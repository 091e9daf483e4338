//! The checks: each enumerates a space completely and compares every execution with the model.
use crate::cfg::{self, Cfg, Dyn, Repr, TagSeed, Tagged, CFGS, NT, SORTED, TAGS};
use crate::doc::{self, from_toks, Cx, De, Doc, Style, Text, STYLES, TEXTS};
use crate::gen::{self, leak, st, TV};
use crate::real::{self, Real};
use crate::report::{guard, par, Acc};
use crate::shape::{PayS, Seed, Shape, S};
use crate::spec::{self, Why};
use crate::strict;
use crate::tok::{Bad, Rec, Tok, FAULT};
use crate::val::{Pay, Val};
use serde::de::DeserializeSeed;
use serde::Serialize;

pub struct Tier {
    pub thorough: bool,
}
impl Tier {
    pub fn depth(&self) -> usize {
        if self.thorough {
            4
        } else {
            3
        }
    }
}

pub struct Run {
    pub r: Result<(), Bad>,
    pub toks: Vec<Tok>,
    pub calls: usize,
    after: usize,
}

/// One serialization into the recorder.
pub fn rec<T: Serialize + ?Sized>(v: &T, human: bool, fail_at: usize, acc: &mut Acc) -> Result<Run, String> {
    let z = Rec::new(human, fail_at);
    let r = guard(|| v.serialize(z.clone()))?;
    let mut s = z.st.borrow_mut();
    acc.transitions += s.calls as u64;
    acc.execs += 1;
    Ok(Run { r, toks: std::mem::take(&mut s.toks), calls: s.calls, after: s.after })
}

pub type Got = Result<(usize, Val), String>;

/// One deserialization of a trait object from a document.
pub fn de_doc(c: Cfg, slots: [S; NT], d: &Doc, cx: &Cx, acc: &mut Acc) -> Result<Got, String> {
    let _f = cfg::push(slots);
    cx.calls.set(0);
    cx.failed.set(false);
    cx.after.set(0);
    let r = guard(|| TagSeed(c).deserialize(De::new(d, cx)))?;
    acc.transitions += cx.calls.get() as u64;
    acc.execs += 1;
    match &r {
        Ok(_) => acc.ok += 1,
        Err(_) => acc.rejected += 1,
    }
    Ok(r.map_err(|e| e.0))
}

pub fn same(exp: &Result<(usize, Val), Why>, got: &Got) -> bool {
    match (exp, got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

/// Runs the document and compares with the model.
pub fn check_doc(key: &str, c: Cfg, slots: [S; NT], d: &Doc, cx: &Cx, acc: &mut Acc) -> Option<(Result<(usize, Val), Why>, Got)> {
    let exp = spec::de(c, slots, d, cx);
    let case = || format!("{c:?} shapes={slots:?} {:?} {:?} human={} doc={d:?}", cx.style, cx.text, cx.human);
    match de_doc(c, slots, d, cx, acc) {
        Err(m) => {
            acc.viol(key, case(), format!("panic: {m}"));
            None
        }
        Ok(got) => {
            if !same(&exp, &got) {
                acc.viol(key, case(), format!("expected {exp:?}, got {got:?}"));
            }
            Some((exp, got))
        }
    }
}

pub fn is_int(c: Cfg) -> bool {
    matches!(c.repr(), Repr::Int { .. })
}
pub fn is_adj(c: Cfg) -> bool {
    matches!(c.repr(), Repr::Adj { .. })
}
fn int_tag(c: Cfg) -> Option<&'static str> {
    match c.repr() {
        Repr::Int { tag, .. } => Some(tag),
        _ => None,
    }
}

/// Through newtypes, the value an internally tagged trait sees.
fn top(v: &Val) -> &Val {
    match v {
        Val::Newtype(_, v) => top(v),
        v => v,
    }
}
pub fn top_shape(s: S) -> S {
    match s {
        Shape::Newtype(_, s) => top_shape(s),
        s => s,
    }
}
/// The struct has a field named like the tag: see C03.
pub fn tag_field(c: Cfg, v: &Val) -> bool {
    match (int_tag(c), top(v)) {
        (Some(t), Val::Struct(_, f) | Val::StructSkip(_, f, _)) => f.iter().any(|x| x.0 == t),
        _ => false,
    }
}
/// The map has a key like the tag; only formats that keep both entries can carry it.
fn tag_key(c: Cfg, v: &Val) -> bool {
    fn text(v: &Val) -> Option<&str> {
        match v {
            Val::Str(s) => Some(s),
            Val::Newtype(_, v) => text(v),
            Val::Var(_, _, n, Pay::Unit) => Some(n),
            _ => None,
        }
    }
    match (int_tag(c), top(v)) {
        (Some(t), Val::Map(m, _)) => m.iter().any(|(k, _)| text(k) == Some(t)),
        (Some(t), Val::Var(_, _, n, _)) => *n == t,
        // a trait object in the place of the content may use the same key
        (Some(_), Val::Obj(..)) => true,
        _ => false,
    }
}
/// A type that asks the format what is there cannot see past the tag of an internally tagged trait.
pub fn guesses(c: Cfg, s: S, v: &Val) -> bool {
    is_int(c) && matches!(top_shape(s), Shape::Any) && !matches!(top(v), Val::Map(..))
}

pub fn slots(s: S) -> [S; NT] {
    [s, &Shape::U8]
}

// ---------------------------------------------------------------- C01, C02

/// The type without size.
const NOTHING: usize = 5;

pub fn c01_c02(t: &Tier, internal: bool) -> Acc {
    let mut jobs = gen::big(70000);
    jobs.extend(gen::shapes(t.depth()));
    jobs.extend(gen::nested(&[Cfg::Ext, Cfg::Int, Cfg::Adj], &gen::few_leaves(), 1));
    let prop = if internal { "C02" } else { "C01" };
    par(&jobs, |tv, acc| {
        for (vi, v) in tv.v.iter().enumerate() {
            for human in [true, false] {
                let base = rec(v, human, 0, acc).unwrap();
                base.r.as_ref().unwrap();
                for c in CFGS.iter().filter(|c| is_int(**c) == internal) {
                    if tag_field(*c, v) {
                        acc.skipped += 1;
                        continue;
                    }
                    let mut tys = vec![0, NOTHING, (vi + acc.job) % TAGS.len()];
                    tys.dedup();
                    for ty in tys {
                        acc.state(&(c, ty, human, &base.toks));
                        let case = || format!("{c:?} type={} human={human} value={v:?}", TAGS[ty]);
                        let got = match rec(&Tagged(*c, ty, v), human, 0, acc) {
                            Ok(g) => g,
                            Err(m) => {
                                acc.viol(prop, case(), format!("panic: {m}"));
                                continue;
                            }
                        };
                        if let Err(e) = &got.r {
                            acc.viol(prop, case(), format!("serialization fails: {e}"));
                            continue;
                        }
                        acc.ok += 1;
                        let exp = spec::ser(c.repr(), TAGS[ty], &base.toks);
                        let good = if internal { same_internal(&exp, &got.toks) } else { exp == got.toks };
                        if !good {
                            let at = exp.iter().zip(&got.toks).position(|(a, b)| a != b);
                            acc.viol(prop, case(), format!("expected calls {exp:?}, got {:?}, first difference at {at:?}", got.toks));
                        } else if let Err(e) = spec::lengths(&got.toks) {
                            acc.viol(prop, case(), format!("declared length: {e}"));
                        }
                        acc.sample(|| format!("{} => {:?}", case(), got.toks));
                    }
                }
            }
        }
    })
}

/// Equal up to hints; the payload of a tuple variant may be called a tuple or a tuple struct.
fn same_internal(exp: &[Tok], got: &[Tok]) -> bool {
    let (mut e, mut g) = (spec::hints(exp), spec::hints(got));
    for x in [&mut e, &mut g] {
        // Map, Key, tag, Value, variant, Key, name, Value, payload
        if let Some(p) = x.get_mut(8) {
            match *p {
                Tok::TupleStruct(_, n) => *p = Tok::Tuple(n),
                Tok::Struct(_, n) => *p = Tok::Struct("", n),
                _ => {}
            }
        }
    }
    e == g
}

// ---------------------------------------------------------------- C03

pub fn c03(t: &Tier) -> Acc {
    // (value of the field, is it the tag?)
    let txt = |s: &str| Val::Str(s.into());
    let mut cands: Vec<(Val, Option<bool>)> = vec![
        (txt("Alpha"), Some(true)),
        (Val::Display("Alpha".into()), Some(true)),
        (Val::Newtype("N", Box::new(txt("Alpha"))), Some(true)),
        (Val::Some(Box::new(txt("Alpha"))), Some(true)),
    ];
    for s in ["Beta", "", "alpha", "Alph", "Alphaa", "Alpha ", "Alpha\0", "type"] {
        cands.push((txt(s), Some(false)));
        cands.push((Val::Newtype("N", Box::new(txt(s))), Some(false)));
    }
    for tv in gen::leaves() {
        for v in tv.v {
            if v != txt("Alpha") {
                cands.push((v, Some(false)));
            }
        }
    }
    for v in [
        Val::None,
        Val::Var("E", 0, "Alpha", Pay::Unit),
        Val::Var("E", 0, "Alpha", Pay::New(Box::new(txt("Alpha")))),
        Val::Var("E", 0, "Alpha", Pay::Tup(vec![])),
        Val::Var("E", 0, "Alpha", Pay::Struct(vec![])),
        Val::Seq(vec![txt("Alpha")], true),
        Val::Tuple(vec![txt("Alpha")]),
        Val::TupleStruct("Alpha", vec![txt("Alpha")]),
        Val::Map(vec![(txt("Alpha"), txt("Alpha"))], true),
        Val::Struct("Alpha", vec![("Alpha", txt("Alpha"))]),
        Val::UnitStruct("Alpha"),
        Val::Bytes(b"Alpha".to_vec()),
        Val::Char('A'),
        Val::Fail("inner".into()),
        Val::Obj(Cfg::Ext, 0, Box::new(txt("Alpha"))),
    ] {
        cands.push((v, Some(false)));
    }
    let others = [("b", Val::U8(7)), ("value", txt("w")), ("z", Val::Seq(vec![Val::U8(1), Val::U8(2)], true)), ("h", Val::Human)];
    let oshape = |i: usize| -> S {
        match i {
            0 => &Shape::U8,
            1 => &Shape::Str,
            2 => &Shape::Seq(&Shape::U8),
            _ => &Shape::Human,
        }
    };
    let mut jobs = Vec::new();
    let fixed: Vec<(&'static str, Val, S)> = others.iter().enumerate().map(|(i, o)| (o.0, o.1.clone(), oshape(i))).collect();
    for c in CFGS.iter().filter(|c| is_int(**c)) {
        let mut sets: Vec<Vec<(&'static str, Val, S)>> = (0..=(if t.thorough { 4 } else { 3 })).map(|n| fixed[..n].to_vec()).collect();
        // names close to the tag are names like any other, alone, in pairs, and whatever they hold
        let near = gen::near(int_tag(*c).unwrap());
        for (i, a) in near.iter().enumerate() {
            sets.push(vec![(a, Val::U8(1), &Shape::U8)]);
            sets.push(vec![(a, txt("Alpha"), &Shape::Str), (near[(i + 1) % near.len()], txt("Beta"), &Shape::Str)]);
        }
        for set in sets {
            for pos in 0..=set.len() {
                for wrap in [false, true] {
                    jobs.push((*c, set.clone(), pos, wrap));
                }
            }
        }
    }
    par(&jobs, |(c, set, pos, wrap), acc| {
        let (c, pos, wrap) = (*c, *pos, *wrap);
        let n = set.len();
        let tag = int_tag(c).unwrap();
        for (cand, good) in &cands {
            let mut f: Vec<(&'static str, Val)> = set.iter().map(|o| (o.0, o.1.clone())).collect();
            f.insert(pos, (tag, cand.clone()));
            let mut v = Val::Struct("Ty", f.clone());
            if wrap {
                v = Val::Newtype("Nt", Box::new(v));
            }
            for human in [true, false] {
                let case = || format!("{c:?} human={human} tag field at {pos} of {}: {v:?}", n + 1);
                acc.state(&(c, pos, n, wrap, human, format!("{f:?}")));
                acc.sample(case);
                let got = match rec(&Tagged(c, 0, &v), human, 0, acc) {
                    Ok(g) => g,
                    Err(m) => {
                        acc.viol("C03/panic", case(), m);
                        continue;
                    }
                };
                match (good.unwrap(), &got.r) {
                    (false, Ok(())) => acc.viol("C03/accepted", case(), format!("a field that contradicts the tag is accepted: {:?}", got.toks)),
                    (false, Err(e)) => {
                        acc.rejected += 1;
                        if !e.0.contains(&format!("{tag:?}")) {
                            acc.viol("C03/message", case(), format!("the error does not name the tag key {tag:?}: {e}"));
                        }
                    }
                    (true, Err(e)) => acc.viol("C03/rejected", case(), format!("a field equal to the tag is rejected: {e}")),
                    (true, Ok(())) => {
                        acc.ok += 1;
                        let base = rec(&v, human, 0, acc).unwrap().toks;
                        let exp = spec::ser(c.repr(), "Alpha", &base);
                        // first the entries, then the length they were announced with
                        let undeclare = |t: &[Tok]| {
                            let mut t = t.to_vec();
                            if let Tok::Map(l) = &mut t[0] {
                                *l = None;
                            }
                            t
                        };
                        if spec::hints(&undeclare(&exp)) != spec::hints(&undeclare(&got.toks)) {
                            acc.viol("C03/entries", case(), format!("expected {exp:?}, got {:?}", got.toks));
                            continue;
                        }
                        let len_ok = match spec::lengths(&got.toks) {
                            Ok(()) => true,
                            Err(e) => {
                                // the known one: the tag field is counted, though it is not written again
                                let mut fixed = got.toks.clone();
                                let key = if fixed[0] == Tok::Map(Some(n + 2)) {
                                    fixed[0] = Tok::Map(Some(n + 1));
                                    if spec::lengths(&fixed).is_ok() { "C03/tag-field-counted" } else { "C03/length" }
                                } else {
                                    "C03/length"
                                };
                                acc.viol(key, case(), e);
                                false
                            }
                        };
                        // and back, by a type that does without its tag field
                        let mut names = vec![];
                        for o in set {
                            names.push((o.0, o.2));
                        }
                        names.insert(pos, (tag, &Shape::Str));
                        let mut stt = st("Ty", &names, false);
                        stt.default[pos] = Some(Val::Str("Alpha".into()));
                        let mut sh = leak(Shape::Struct(stt));
                        let mut f2 = f.clone();
                        f2[pos].1 = Val::Str("Alpha".into());
                        let mut want = Val::Struct("Ty", f2);
                        if wrap {
                            sh = leak(Shape::Newtype("Nt", sh));
                            want = Val::Newtype("Nt", Box::new(want));
                        }
                        let sl = slots(sh);
                        for style in STYLES {
                            let cx = Cx::new(style, Text::Borrowed, human);
                            if let Some(d) = from_toks(&got.toks, style) {
                                match de_doc(c, sl, &d, &cx, acc) {
                                    Ok(Ok(r)) if r == (0, want.clone()) => {}
                                    r => acc.viol("C03/decode", format!("{} {style:?} doc={d:?}", case()), format!("{r:?}")),
                                }
                            }
                        }
                        if len_ok {
                            let cx = Cx::new(Style::Typed, Text::Borrowed, human);
                            let r = de_strict(c, sl, &got.toks, &cx, acc);
                            if r != Ok(Ok((0, want.clone()))) {
                                acc.viol("C03/decode", format!("{} compact", case()), format!("{r:?}"));
                            }
                        }
                        for r in [Real::Text, Real::Value, Real::Cbor, Real::Postcard, Real::Bincode] {
                            if !len_ok && !matches!(r, Real::Text | Real::Value) {
                                continue;
                            }
                            let out = real_trip(r, c, sl, 0, &v, acc);
                            if out != Ok((0, want.clone())) {
                                acc.viol("C03/decode", format!("{} {r:?}", case()), format!("{out:?}"));
                            }
                        }
                    }
                }
            }
        }
    })
}

// ---------------------------------------------------------------- round trips

pub fn de_strict(c: Cfg, slots: [S; NT], t: &[Tok], cx: &Cx, acc: &mut Acc) -> Result<Got, String> {
    let _f = cfg::push(slots);
    cx.calls.set(0);
    cx.failed.set(false);
    cx.after.set(0);
    let tape = strict::Tape::new(t, cx);
    let r = guard(|| {
        // SAFETY of the borrow: the result owns its data
        let r = TagSeed(c).deserialize(strict::De(&tape));
        r.and_then(|v| if tape.at_end() { Ok(v) } else { Err(Bad("data is left over".into())) })
    })?;
    acc.transitions += cx.calls.get() as u64;
    acc.execs += 1;
    match &r {
        Ok(_) => acc.ok += 1,
        Err(_) => acc.rejected += 1,
    }
    Ok(r.map_err(|e| e.0))
}

pub fn direct_strict(s: S, t: &[Tok], cx: &Cx) -> Result<Val, Bad> {
    let tape = strict::Tape::new(t, cx);
    let v = Seed(s).deserialize(strict::De(&tape))?;
    if tape.at_end() {
        Ok(v)
    } else {
        Err(Bad("data is left over".into()))
    }
}

/// Through a real format as a trait object.
fn real_trip(r: Real, c: Cfg, slots: [S; NT], ty: usize, v: &Val, acc: &mut Acc) -> Result<(usize, Val), String> {
    acc.execs += 1;
    let e = guard(|| real::enc(r, &Tagged(c, ty, v)))??;
    let _f = cfg::push(slots);
    cfg::set_current(c);
    guard(|| real::dec::<Dyn>(r, &e))?.map(|d| d.0)
}

/// Through a real format alone.
fn real_direct(r: Real, s: S, v: &Val) -> Result<Val, String> {
    let e = real::enc(r, v)?;
    let _f = cfg::push(slots(s));
    real::dec::<cfg::Alpha>(r, &e).map(|a| a.0)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Order {
    Sorted,
    Reversed,
}
/// The document in a format that orders the entries of every map.
fn reorder(d: &Doc, o: Order) -> Doc {
    match d {
        Doc::Map(m) => {
            let mut m: Vec<(Doc, Doc)> = m.iter().map(|(k, v)| (k.clone(), reorder(v, o))).collect();
            match o {
                Order::Reversed => m.reverse(),
                Order::Sorted => m.sort_by_key(|(k, _)| match k {
                    Doc::Str(s) => s.clone(),
                    k => format!("{k:?}"),
                }),
            }
            Doc::Map(m)
        }
        Doc::Seq(q) => Doc::Seq(q.iter().map(|d| reorder(d, o)).collect()),
        Doc::Some(d) => Doc::Some(Box::new(reorder(d, o))),
        Doc::Newtype(d) => Doc::Newtype(Box::new(reorder(d, o))),
        d => d.clone(),
    }
}

pub fn c04(t: &Tier) -> Acc {
    let mut jobs = gen::big(4097);
    jobs.extend(gen::shapes(t.depth() - 1));
    par(&jobs, |tv, acc| {
        for v in &tv.v {
            let want = v.norm();
            for human in [true, false] {
                let base = rec(v, human, 0, acc).unwrap().toks;
                for style in STYLES {
                    let Some(plain) = from_toks(&base, style) else {
                        acc.skipped += 1;
                        continue;
                    };
                    for text in TEXTS {
                        let cx = Cx::new(style, text, human);
                        // the type alone must round-trip
                        if spec::direct(tv.s, &plain, &cx).as_ref() != Ok(&want) {
                            acc.skipped += 1;
                            continue;
                        }
                        for c in CFGS {
                            if tag_field(*c, v) || guesses(*c, tv.s, v) || no_default(*c) {
                                continue;
                            }
                            acc.state(&(c, style, text, human, &base, tv.s as *const Shape as usize));
                            let case = || format!("{c:?} {style:?} {text:?} human={human} shape={:?} value={v:?}", tv.s);
                            let got = match rec(&Tagged(*c, 0, v), human, 0, acc) {
                                Ok(g) if g.r.is_ok() => g.toks,
                                Ok(g) => {
                                    acc.viol("C04", case(), format!("serialization fails: {:?}", g.r));
                                    continue;
                                }
                                Err(m) => {
                                    acc.viol("C04", case(), format!("panic: {m}"));
                                    continue;
                                }
                            };
                            let Some(d) = from_toks(&got, style) else {
                                acc.viol("C04", case(), format!("the format cannot hold {got:?}"));
                                continue;
                            };
                            let r = de_doc(*c, slots(tv.s), &d, &cx, acc);
                            if r != Ok(Ok((0, want.clone()))) {
                                acc.viol("C04", case(), format!("doc={d:?} decodes as {r:?}"));
                            }
                            // the format keeps the keys of a map in an order of its own
                            if tag_key(*c, v) || style == Style::Json && (!gen::text_keys(tv.s) || !human && gen::human_keys(tv.s)) {
                                continue;
                            }
                            for order in [Order::Sorted, Order::Reversed] {
                                let (o, plain) = (reorder(&d, order), reorder(&plain, order));
                                let Ok(want) = spec::direct(tv.s, &plain, &cx) else { continue };
                                if is_int(*c) && matches!(&d, Doc::Map(m) if m.iter().any(|(k, _)| !matches!(k, Doc::Str(_)))) {
                                    continue;
                                }
                                acc.state(&(c, order, style, text, human, &base, tv.s as *const Shape as usize));
                                let r = de_doc(*c, slots(tv.s), &o, &cx, acc);
                                if r != Ok(Ok((0, want.clone()))) {
                                    acc.viol("C04", case(), format!("doc={o:?} ({order:?}) decodes as {r:?}"));
                                }
                            }
                            acc.sample(|| format!("{} doc={d:?}", case()));
                        }
                    }
                }
            }
            reals(&real::SELF_DESCRIBING, "C04", tv, v, &want, acc);
        }
    })
}

pub fn no_default(c: Cfg) -> bool {
    matches!(c, Cfg::IntNo | Cfg::AdjNo)
}

fn reals(rs: &[Real], prop: &str, tv: &TV, v: &Val, want: &Val, acc: &mut Acc) {
    for r in rs {
        match guard(|| real_direct(*r, tv.s, v)) {
            Ok(Ok(d)) if d == *want => {}
            _ => {
                acc.skipped += 1;
                continue;
            }
        }
        for c in CFGS {
            if tag_field(*c, v) || guesses(*c, tv.s, v) || no_default(*c) {
                continue;
            }
            // a map type keeps one of two equal keys
            if *r == Real::Value && tag_key(*c, v) {
                continue;
            }
            // sorted keys put the tag anywhere: numbers as keys cannot be read from a buffer
            if *r == Real::Value && !gen::text_keys(tv.s) {
                continue;
            }
            acc.state(&(r, c, format!("{v:?}"), tv.s as *const Shape as usize));
            acc.count(&format!("{r:?}"), 1);
            let out = real_trip(*r, *c, slots(tv.s), 0, v, acc);
            if out != Ok((0, want.clone())) {
                acc.viol(prop, format!("{r:?} {c:?} shape={:?} value={v:?}", tv.s), format!("{out:?}; written as {:?}", real::enc(*r, &Tagged(*c, 0, v))));
            }
        }
    }
}

pub fn c05(t: &Tier) -> Acc {
    let mut jobs = gen::big(70000);
    jobs.extend(gen::shapes(t.depth()));
    par(&jobs, |tv, acc| {
        for v in &tv.v {
            let want = v.norm();
            for human in [false, true] {
                let base = rec(v, human, 0, acc).unwrap().toks;
                for (text, names) in TEXTS.into_iter().flat_map(|t| [(t, false), (t, true)]) {
                    let cx = Cx::compact(text, human, names);
                    if direct_strict(tv.s, &base, &cx).as_ref() != Ok(&want) {
                        acc.skipped += 1;
                        continue;
                    }
                    for c in CFGS {
                        if tag_field(*c, v) || no_default(*c) {
                            continue;
                        }
                        acc.state(&(c, text, names, human, &base, tv.s as *const Shape as usize));
                        let case = || format!("{c:?} {text:?} names={names} human={human} shape={:?} value={v:?}", tv.s);
                        let got = match rec(&Tagged(*c, 0, v), human, 0, acc) {
                            Ok(g) if g.r.is_ok() => g.toks,
                            g => {
                                acc.viol("C05", case(), format!("serialization fails: {:?}", g.map(|g| g.r)));
                                continue;
                            }
                        };
                        let r = de_strict(*c, slots(tv.s), &got, &cx, acc);
                        if r != Ok(Ok((0, want.clone()))) {
                            acc.viol("C05", case(), format!("{got:?} decodes as {r:?}"));
                        }
                        acc.sample(|| format!("{} calls={got:?}", case()));
                    }
                }
            }
            reals(&real::COMPACT, "C05", tv, v, &want, acc);
        }
    })
}

// ---------------------------------------------------------------- C06

/// The tagged document with its parts apart: the tag entry, and the other entries in order.
pub fn apart(c: Cfg, d: &Doc) -> Option<((Doc, Doc), Vec<(Doc, Doc)>)> {
    let Doc::Map(m) = d else { return None };
    let tag = match c.repr() {
        Repr::Int { tag, .. } | Repr::Adj { tag, .. } => tag,
        Repr::Ext => return None,
    };
    let i = m.iter().position(|(k, _)| *k == doc::s(tag))?;
    let mut rest = m.clone();
    let t = rest.remove(i);
    Some((t, rest))
}

fn extras() -> Vec<Doc> {
    vec![
        Doc::Null,
        Doc::U64(1),
        doc::s("Alpha"),
        Doc::Seq(vec![Doc::Bool(true), Doc::Map(vec![(doc::s("t"), Doc::Null)])]),
        Doc::Map(vec![(doc::s("type"), doc::s("Nope")), (doc::s("c"), Doc::Seq(vec![]))]),
    ]
}

fn takes_extras(s: S) -> bool {
    match top_shape(s) {
        Shape::Struct(st) => !st.deny,
        _ => false,
    }
}

pub fn c06(t: &Tier) -> Acc {
    let mut acc = c06_accepted(t);
    acc.merge(c06_any(t));
    acc.merge(c06_big(t));
    acc
}

/// Contents that are long, wide or deep, with the tag first, in the middle and last.
fn c06_big(t: &Tier) -> Acc {
    let jobs = gen::big(if t.thorough { 70000 } else { 4097 });
    par(&jobs, |tv, acc| {
        for v in &tv.v {
            let want = v.norm();
            let base = rec(v, true, 0, acc).unwrap().toks;
            for style in STYLES {
                // numbers that are written as text are read from text only by the format itself
                if style == Style::Json && !gen::text_keys(tv.s) {
                    acc.skipped += 1;
                    continue;
                }
                for text in TEXTS {
                    let cx = Cx::new(style, text, true);
                    match from_toks(&base, style) {
                        Some(d) if spec::direct(tv.s, &d, &cx).as_ref() == Ok(&want) => {}
                        _ => {
                            acc.skipped += 1;
                            continue;
                        }
                    }
                    for c in CFGS.iter().filter(|c| !matches!(c.repr(), Repr::Ext) && !no_default(**c)) {
                        let Some(d) = from_toks(&spec::ser(c.repr(), "Alpha", &base), style) else { continue };
                        let Some((tag, rest)) = apart(*c, &d) else { continue };
                        // a content that has an entry named like the tag is spoken for by no one
                        let own = from_toks(&base, style).unwrap();
                        if matches!(c.repr(), Repr::Int { .. }) && apart(*c, &own).is_some() {
                            acc.skipped += 1;
                            continue;
                        }
                        let mut at = vec![0, 1, rest.len() / 2, rest.len()];
                        at.dedup();
                        if is_int(*c) && rest.iter().any(|(k, _)| !matches!(k, Doc::Str(_))) {
                            at.truncate(1);
                        }
                        for i in at.into_iter().filter(|i| *i <= rest.len()) {
                            let mut m = rest.clone();
                            m.insert(i, tag.clone());
                            acc.state(&("big", c, style, text, i, acc.job, format!("{v:?}")));
                            let got = de_doc(*c, slots(tv.s), &Doc::Map(m), &cx, acc);
                            if got != Ok(Ok((0, want.clone()))) {
                                let brief = |d: String| d.chars().take(2000).collect::<String>();
                                acc.viol("C06", brief(format!("{c:?} {style:?} {text:?} tag at {i}, value={v:?}")), brief(format!("{got:?}")));
                            }
                        }
                    }
                }
            }
        }
    })
}

/// Contents the type need not accept: the outcome is that of the tag first, whatever it is.
fn c06_any(t: &Tier) -> Acc {
    let contents = contents();
    let jobs = gen::shapes(if t.thorough { 2 } else { 1 });
    par(&jobs, |tv, acc| {
        for (si, style) in STYLES.into_iter().enumerate() {
            for human in [true, false] {
                if style == Style::Json && (!gen::text_keys(tv.s) || !human && gen::human_keys(tv.s)) {
                    continue;
                }
                let own = own(tv, style, human);
                let cx = Cx::new(style, TEXTS[(acc.job + si) % 3], human);
                for d in own.iter().chain(contents[si].iter().skip(acc.job % 2).step_by(if t.thorough { 1 } else { 2 })) {
                    for c in CFGS.iter().filter(|c| !matches!(c.repr(), Repr::Ext) && !no_default(**c)) {
                        let (tag, rests) = match c.repr() {
                            Repr::Adj { tag, content, .. } => (tag, vec![vec![(doc::s(content), d.clone())]]),
                            Repr::Int { tag, .. } => {
                                let mut r = vec![vec![(doc::s("value"), d.clone())]];
                                if let Doc::Map(m) = d {
                                    if m.iter().all(|(k, _)| matches!(k, Doc::Str(k) if k != tag)) {
                                        r.push(m.clone());
                                    }
                                }
                                (tag, r)
                            }
                            Repr::Ext => continue,
                        };
                        for rest in rests {
                            let at = |i: usize| {
                                let mut m = rest.clone();
                                m.insert(i, (doc::s(tag), doc::s("Alpha")));
                                Doc::Map(m)
                            };
                            let want = de_doc(*c, slots(tv.s), &at(0), &cx, acc);
                            let last = rest.len();
                            for i in (1..=last).filter(|i| last < 9 || [1, last / 2, last].contains(i)) {
                                let o = at(i);
                                acc.state(&("any", c, style, cx.text, human, format!("{o:?}"), tv.s as *const Shape as usize));
                                let got = de_doc(*c, slots(tv.s), &o, &cx, acc);
                                let equal = match (&want, &got) {
                                    (Ok(Ok(a)), Ok(Ok(b))) => a == b,
                                    (Ok(Err(_)), Ok(Err(_))) => true,
                                    _ => false,
                                };
                                if !equal {
                                    acc.viol(
                                        "C06",
                                        format!("{c:?} {style:?} {:?} human={human} shape={:?} doc={o:?}", cx.text, tv.s),
                                        format!("with the tag first: {want:?}; in this order: {got:?}"),
                                    );
                                }
                            }
                        }
                    }
                }
            }
        }
    })
}

fn c06_accepted(t: &Tier) -> Acc {
    let mut jobs: Vec<TV> = gen::shapes(t.depth() - 1);
    jobs.push(TV { s: &Shape::Ignored, v: vec![Val::Unit, Val::U8(1), Val::Map(vec![(Val::Str("a".into()), Val::Unit), (Val::Str("value".into()), Val::Unit)], true)] });
    par(&jobs, |tv, acc| {
        for (vi, v) in tv.v.iter().enumerate() {
            for human in [true, false] {
                let base = rec(v, human, 0, acc).unwrap().toks;
                for style in STYLES {
                    if style == Style::Json && (!gen::text_keys(tv.s) || !human && gen::human_keys(tv.s)) {
                        acc.skipped += 1;
                        continue;
                    }
                    for text in TEXTS {
                        let cx = Cx::new(style, text, human);
                        for c in CFGS.iter().filter(|c| !matches!(c.repr(), Repr::Ext)) {
                            if tag_field(*c, v) || tag_key(*c, v) || no_default(*c) {
                                continue;
                            }
                            // the document is made by the model, so that this is about reading only
                            let Some(d) = from_toks(&spec::ser(c.repr(), "Alpha", &base), style) else { continue };
                            let Some((tag, rest)) = apart(*c, &d) else { continue };
                            if is_int(*c) && rest.iter().any(|(k, _)| !matches!(k, Doc::Str(_))) {
                                continue; // keys that are not text stand only behind the tag
                            }
                            let mut first = rest.clone();
                            first.insert(0, tag.clone());
                            let first = Doc::Map(first);
                            let want = match de_doc(*c, slots(tv.s), &first, &cx, acc) {
                                Ok(r) => r,
                                Err(m) => {
                                    acc.viol("C06", format!("{c:?} {style:?} {text:?} shape={:?} doc={first:?}", tv.s), format!("panic: {m}"));
                                    continue;
                                }
                            };
                            let mut orders: Vec<Doc> = Vec::new();
                            for i in 1..=rest.len() {
                                let mut m = rest.clone();
                                m.insert(i, tag.clone());
                                orders.push(Doc::Map(m));
                            }
                            let ignorable = match c.repr() {
                                Repr::Adj { deny, .. } => !deny,
                                _ => takes_extras(tv.s),
                            };
                            if ignorable {
                                let es = extras();
                                for e in es.into_iter().skip(vi % 2).step_by(2) {
                                    for i in 0..=rest.len() {
                                        for j in 0..=rest.len() + 1 {
                                            let mut m = rest.clone();
                                            m.insert(i, tag.clone());
                                            m.insert(j, (doc::s("zz"), e.clone()));
                                            orders.push(Doc::Map(m));
                                        }
                                    }
                                }
                            }
                            for o in orders {
                                acc.state(&(c, style, text, human, format!("{o:?}"), tv.s as *const Shape as usize));
                                let got = de_doc(*c, slots(tv.s), &o, &cx, acc);
                                let equal = match (&want, &got) {
                                    (Ok(a), Ok(Ok(b))) => a == b,
                                    (Err(_), Ok(Err(_))) => true,
                                    _ => false,
                                };
                                if !equal {
                                    acc.viol(
                                        "C06",
                                        format!("{c:?} {style:?} {text:?} human={human} shape={:?} doc={o:?}", tv.s),
                                        format!("with the tag first: {want:?}; in this order: {got:?}"),
                                    );
                                }
                                acc.sample(|| format!("{c:?} {style:?} {text:?} {o:?} => {got:?}"));
                            }
                        }
                    }
                }
            }
            real_orders(tv, v, acc);
        }
    })
}

/// The same with the real formats: the entries are written out in every order.
fn real_orders(tv: &TV, v: &Val, acc: &mut Acc) {
    if !gen::text_keys(tv.s) {
        return;
    }
    let want = v.norm();
    for r in [Real::Text, Real::Cbor] {
        if !matches!(guard(|| real_direct(r, tv.s, v)), Ok(Ok(d)) if d == want) {
            acc.skipped += 1;
            continue;
        }
        let style = if r == Real::Text { Style::Json } else { Style::Cbor };
        // JSON buffers numbers as 64 bits or a float, in any library
        if r == Real::Text && wide(v) {
            acc.skipped += 1;
            continue;
        }
        let human = r == Real::Text;
        let base = rec(v, human, 0, acc).unwrap().toks;
        for c in CFGS.iter().filter(|c| !matches!(c.repr(), Repr::Ext)) {
            if tag_field(*c, v) || tag_key(*c, v) || no_default(*c) || guesses(*c, tv.s, v) {
                continue;
            }
            let Some(d) = from_toks(&spec::ser(c.repr(), "Alpha", &base), style) else { continue };
            let Some((tag, rest)) = apart(*c, &d) else { continue };
            if is_int(*c) && rest.iter().any(|(k, _)| !matches!(k, Doc::Str(_))) {
                continue;
            }
            for i in 0..=rest.len() {
                let mut m = rest.clone();
                m.insert(i, tag.clone());
                let Ok(e) = real::enc(r, &Raw(&Doc::Map(m), style)) else { continue };
                acc.state(&(r, c, format!("{e:?}"), tv.s as *const Shape as usize));
                acc.execs += 1;
                acc.count(&format!("{r:?}"), 1);
                let _f = cfg::push(slots(tv.s));
                cfg::set_current(*c);
                let got = guard(|| real::dec::<Dyn>(r, &e)).and_then(|x| x).map(|d| d.0);
                if got != Ok((0, want.clone())) {
                    acc.viol("C06", format!("{r:?} {c:?} shape={:?} input={e:?} tag at {i}", tv.s), format!("{got:?} instead of {want:?}"));
                }
            }
        }
    }
}

fn wide(v: &Val) -> bool {
    format!("{v:?}").contains("128(")
}

/// A document as a format of the style would have it: numbers are numbers, whatever their width.
struct Raw<'a>(&'a Doc, Style);
impl<'a> Serialize for Raw<'a> {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self.0 {
            Doc::Seq(q) => {
                let mut s = z.serialize_seq(Some(q.len()))?;
                for e in q {
                    s.serialize_element(&Raw(e, self.1))?;
                }
                s.end()
            }
            Doc::Map(m) => {
                let mut s = z.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    s.serialize_entry(&Raw(k, self.1), &Raw(v, self.1))?;
                }
                s.end()
            }
            d => d.serialize(z),
        }
    }
}

// ---------------------------------------------------------------- C07

const NEAR: [&str; 14] = [
    "Alpha", "Beta", "Alph", "Alphaa", "", "alpha", "Alpha ", "Gamma", "ALPHA", "Alpha\0", " Alpha", "Alp", "\u{0391}lpha", "type",
];

/// What may stand in the place of a content, by style: what some type is written as, and what none is.
pub fn contents() -> Vec<Vec<Doc>> {
    let mut contents: Vec<Vec<Doc>> = vec![Vec::new(); STYLES.len()];
    for tv in gen::leaves().iter().chain(&gen::fixed()).chain(gen::few_leaves().iter().flat_map(|t| gen::wraps(t, 2)).collect::<Vec<_>>().iter()) {
        for v in &tv.v {
            let base = crate::tok::record(v, true).unwrap();
            for (i, style) in STYLES.iter().enumerate() {
                if let Some(d) = from_toks(&base, *style) {
                    if !contents[i].contains(&d) {
                        contents[i].push(d);
                    }
                }
            }
        }
    }
    for c in &mut contents {
        c.push(Doc::Map(vec![(doc::s("a"), Doc::U8(1)), (doc::s("a"), Doc::U8(1)), (doc::s("b"), Doc::U8(1))]));
        c.push(Doc::Map(vec![(doc::s("b"), Doc::U8(1))]));
        c.push(Doc::Map(vec![(doc::s("a"), Doc::U8(1)), (doc::s("b"), Doc::U8(1)), (doc::s("x"), Doc::Null)]));
        c.push(Doc::Map(vec![(doc::s("value"), Doc::U8(1)), (doc::s("x"), Doc::Null)]));
        c.push(Doc::Map(vec![(doc::s("x"), Doc::Null), (doc::s("value"), Doc::U8(1))]));
        c.push(Doc::Map(vec![(doc::s("V0"), Doc::Null), (doc::s("V1"), Doc::Null)]));
        c.push(Doc::Map(vec![(doc::s("V0"), Doc::U8(0))]));
        c.push(Doc::Map(vec![(doc::s("V9"), Doc::Null)]));
        c.push(Doc::Seq(vec![Doc::U8(1), Doc::U8(2), Doc::U8(3)]));
        c.push(Doc::Seq(vec![Doc::U8(1)]));
        c.push(Doc::U64(256));
        c.push(Doc::I64(-1));
        c.push(Doc::F64(1.0));
        c.push(doc::s("V0"));
        c.push(doc::s("V1"));
    }
    contents
}

/// What each change of one node of the document makes of it.
pub fn mutants(d: &Doc) -> Vec<Doc> {
    let mut out = Vec::new();
    match d {
        Doc::Seq(q) => {
            let mut m = q.clone();
            m.push(q.first().cloned().unwrap_or(Doc::U8(1)));
            out.push(Doc::Seq(m.clone()));
            m.push(Doc::Null);
            out.push(Doc::Seq(m));
            for i in 0..q.len() {
                let mut m = q.clone();
                m.remove(i);
                out.push(Doc::Seq(m));
                for x in mutants(&q[i]) {
                    let mut m = q.clone();
                    m[i] = x;
                    out.push(Doc::Seq(m));
                }
            }
        }
        Doc::Map(e) => {
            for k in [doc::s("zz"), doc::s("value"), doc::s("V0"), doc::s("")] {
                for at in [0, e.len()] {
                    let mut m = e.clone();
                    m.insert(at, (k.clone(), Doc::Null));
                    out.push(Doc::Map(m));
                }
            }
            for i in 0..e.len() {
                let mut m = e.clone();
                let x = m.remove(i);
                out.push(Doc::Map(m));
                let mut m = e.clone();
                m.push(x);
                out.push(Doc::Map(m));
                if let Doc::Str(k) = &e[i].0 {
                    for k in [format!("{k} "), k.to_uppercase(), k.chars().skip(1).collect()] {
                        let mut m = e.clone();
                        m[i].0 = Doc::Str(k);
                        out.push(Doc::Map(m));
                    }
                }
                for x in mutants(&e[i].1) {
                    let mut m = e.clone();
                    m[i].1 = x;
                    out.push(Doc::Map(m));
                }
            }
        }
        Doc::Some(d) => out.extend(mutants(d).into_iter().map(|d| Doc::Some(Box::new(d)))),
        Doc::Newtype(d) => out.extend(mutants(d).into_iter().map(|d| Doc::Newtype(Box::new(d)))),
        _ => {}
    }
    for x in [Doc::Null, Doc::Bool(true), Doc::U8(1), Doc::U64(300), Doc::I64(-1), Doc::F64(0.5), doc::s("x"), doc::s("V0"), Doc::Seq(vec![]), Doc::Map(vec![]), Doc::Bytes(vec![0xff])] {
        if x != *d {
            out.push(x);
        }
    }
    out.retain(|x| x != d);
    out
}

/// What the type's own documents become by one change.
pub fn own(tv: &TV, style: Style, human: bool) -> Vec<Doc> {
    let mut out = Vec::new();
    for v in &tv.v {
        let base = crate::tok::record(v, human).unwrap();
        if let Some(d) = from_toks(&base, style) {
            for m in mutants(&d) {
                if !out.contains(&m) {
                    out.push(m);
                }
            }
        }
    }
    out
}

pub fn c07(t: &Tier) -> Acc {
    let mut acc = crate::small::run("C07", t);
    acc.merge(c07_envelopes(t));
    acc
}

fn c07_envelopes(t: &Tier) -> Acc {
    let shapes = gen::shapes(1);
    let contents = contents();
    let every = if t.thorough { 1 } else { 3 };
    // a selection of shapes by number in the quick tier: the leaves and the fixed ones, then every third
    let base = gen::leaves().len() + gen::fixed().len();
    let jobs: Vec<TV> = shapes.into_iter().enumerate().filter(|(i, _)| *i < base || i % every == 0).map(|x| x.1).collect();
    let cfgs: Vec<Cfg> = if t.thorough { CFGS.to_vec() } else { vec![Cfg::Ext, Cfg::Int, Cfg::IntDef, Cfg::Adj, Cfg::AdjDefDeny] };
    let mut acc = par(&jobs, |tv, acc| {
        for (si, style) in STYLES.iter().enumerate() {
            if *style == Style::Json && !gen::text_keys(tv.s) {
                continue;
            }
            // numbers as keys cannot be read from a buffer
            let no_compact = *style == Style::Json && gen::human_keys(tv.s);
            for (human, text) in [(true, Text::Borrowed), (false, Text::Transient), (true, Text::Owned)] {
                if no_compact && !human {
                    continue;
                }
                let cx = Cx::new(*style, text, human);
                for d in contents[si].iter().chain(&own(tv, *style, human)) {
                    for c in &cfgs {
                        let docs: Vec<Doc> = match c.repr() {
                            Repr::Ext => vec![Doc::Map(vec![(doc::s("Alpha"), d.clone())])],
                            Repr::Adj { tag, content, .. } => {
                                let (a, b) = ((doc::s(tag), doc::s("Alpha")), (doc::s(content), d.clone()));
                                vec![Doc::Map(vec![a.clone(), b.clone()]), Doc::Map(vec![b, a]), Doc::Seq(vec![doc::s("Alpha"), d.clone()])]
                            }
                            Repr::Int { tag, .. } => {
                                let a = (doc::s(tag), doc::s("Alpha"));
                                let mut v = vec![
                                    Doc::Map(vec![a.clone(), (doc::s("value"), d.clone())]),
                                    Doc::Map(vec![(doc::s("value"), d.clone()), a.clone()]),
                                ];
                                if let Doc::Map(m) = d {
                                    if m.iter().all(|(k, _)| matches!(k, Doc::Str(k) if k != tag)) {
                                        for i in [0, m.len()] {
                                            let mut m = m.clone();
                                            m.insert(i, a.clone());
                                            v.push(Doc::Map(m));
                                        }
                                    }
                                }
                                v
                            }
                        };
                        for d in docs {
                            acc.state(&(c, style, text, human, format!("{d:?}"), tv.s as *const Shape as usize));
                            check_doc("C07", *c, slots(tv.s), &d, &cx, acc);
                            acc.sample(|| format!("{c:?} {style:?} shape={:?} doc={d:?}", tv.s));
                        }
                    }
                }
            }
        }
    });
    // which impl: every tag and near-miss, in every position, with contents only one of the shapes takes
    let jobs: Vec<Cfg> = CFGS.to_vec();
    acc.merge(par(&jobs, |c, acc| {
        let sl: [S; NT] = [&Shape::U8, &Shape::Str];
        let kinds = |n: &str| -> Vec<Doc> {
            vec![doc::s(n), Doc::Bytes(n.as_bytes().to_vec()), Doc::Some(Box::new(doc::s(n))), Doc::Newtype(Box::new(doc::s(n))), Doc::Seq(vec![doc::s(n)]), Doc::Char('A')]
        };
        let mut near: Vec<(Doc, bool)> = NEAR.iter().flat_map(|n| kinds(n)).map(|d| (d, true)).collect();
        for d in (0..12).map(Doc::U8).chain((0..12).map(Doc::U64)).chain((-1..9).map(Doc::I64)) {
            near.push((d, true));
        }
        for d in scalars() {
            near.push((d, true));
        }
        // the other names: as text only, with one content
        for tag in TAGS {
            near.extend(gen::near(tag).into_iter().map(|n| (doc::s(n), false)));
        }
        {
            for (tagdoc, full) in near {
                for cont in [Doc::U8(3), doc::s("x"), Doc::Null].into_iter().take(if full { 3 } else { 1 }) {
                    for style in STYLES {
                        for text in TEXTS.into_iter().take(if full { 3 } else { 1 }) {
                            let cx = Cx::new(style, text, true);
                            let docs: Vec<Doc> = match c.repr() {
                                Repr::Ext => vec![Doc::Map(vec![(tagdoc.clone(), cont.clone())])],
                                Repr::Adj { tag, content, .. } => {
                                    let (a, b) = ((doc::s(tag), tagdoc.clone()), (doc::s(content), cont.clone()));
                                    vec![Doc::Map(vec![a.clone(), b.clone()]), Doc::Map(vec![b, a]), Doc::Seq(vec![tagdoc.clone(), cont.clone()])]
                                }
                                Repr::Int { tag, .. } => {
                                    let (a, b) = ((doc::s(tag), tagdoc.clone()), (doc::s("value"), cont.clone()));
                                    vec![Doc::Map(vec![a.clone(), b.clone()]), Doc::Map(vec![b, a])]
                                }
                            };
                            for d in docs {
                                acc.state(&(c, style, text, format!("{d:?}")));
                                check_doc("C07", *c, sl, &d, &cx, acc);
                            }
                        }
                    }
                }
            }
        }
        // what is written names the impl it came from
        for ty in 0..TAGS.len() {
            let v = if spec::slot(ty) == 0 { Val::U8(9) } else { Val::Str("s".into()) };
            let t = rec(&Tagged(*c, ty, &v), true, 0, acc).unwrap().toks;
            let d = from_toks(&t, Style::Json).unwrap();
            let cx = Cx::new(Style::Json, Text::Borrowed, true);
            let r = de_doc(*c, sl, &d, &cx, acc);
            if r != Ok(Ok((ty, v.clone()))) {
                acc.viol("C07", format!("{c:?} {} doc={d:?}", TAGS[ty]), format!("{r:?}"));
            }
        }
    }));
    acc
}

// ---------------------------------------------------------------- C08, C10, C11

/// All documents of up to `n` entries over an alphabet, and all that are not maps.
fn documents(keys: &[Doc], vals: &[Doc], n: usize) -> Vec<Doc> {
    let mut maps: Vec<Vec<(Doc, Doc)>> = vec![vec![]];
    let mut last = maps.clone();
    for _ in 0..n {
        let mut next = Vec::new();
        for m in &last {
            for k in keys {
                for v in vals {
                    let mut m = m.clone();
                    m.push((k.clone(), v.clone()));
                    next.push(m);
                }
            }
        }
        maps.extend(next.iter().cloned());
        last = next;
    }
    maps.into_iter().map(Doc::Map).collect()
}

fn seqs(vals: &[Doc], n: usize) -> Vec<Doc> {
    let mut all = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        let mut next = Vec::new();
        for q in &last {
            for v in vals {
                let mut q: Vec<Doc> = q.clone();
                q.push(v.clone());
                next.push(q);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all.into_iter().map(Doc::Seq).collect()
}

fn scalars() -> Vec<Doc> {
    vec![
        Doc::Null,
        Doc::None,
        Doc::Bool(true),
        Doc::U64(0),
        Doc::I64(-1),
        Doc::U128(u128::MAX),
        Doc::F64(0.5),
        doc::s("Alpha"),
        doc::s(""),
        Doc::Char('A'),
        Doc::Bytes(b"Alpha".to_vec()),
        Doc::Some(Box::new(doc::s("Alpha"))),
        Doc::Newtype(Box::new(Doc::Map(vec![]))),
        Doc::Some(Box::new(Doc::Map(vec![(doc::s("Alpha"), Doc::U8(1))]))),
    ]
}

fn envelope_docs(c: Cfg, n: usize) -> Vec<Doc> {
    let vals = vec![
        doc::s("Alpha"),
        doc::s("Nope"),
        Doc::U8(5),
        Doc::Null,
        Doc::Seq(vec![Doc::U8(1)]),
        Doc::Map(vec![(doc::s("a"), Doc::U8(1)), (doc::s("b"), Doc::U8(2))]),
    ];
    let keys: Vec<Doc> = match c.repr() {
        Repr::Ext => vec![doc::s("Alpha"), doc::s("Beta"), doc::s("Nope"), Doc::U8(1)],
        Repr::Int { tag, .. } => vec![doc::s(tag), doc::s("value"), doc::s("a"), doc::s("b"), Doc::U8(1)],
        Repr::Adj { tag, content, .. } => vec![doc::s(tag), doc::s(content), doc::s("x"), Doc::U8(1)],
    };
    let mut v = documents(&keys, &vals, n);
    v.extend(seqs(&vals, n.min(3)));
    v.extend(scalars());
    v
}

fn envelope_shapes() -> Vec<[S; NT]> {
    let ab = leak(Shape::Struct(st("St", &[("a", &Shape::U8), ("b", &Shape::U8)], false)));
    let dn = leak(Shape::Struct(st("Sd", &[("a", &Shape::U8), ("b", &Shape::U8)], true)));
    let en = leak(Shape::Enum("En", gen::leak_names(&["a", "b", "Alpha"]), vec![PayS::Unit, PayS::New(&Shape::U8), PayS::Unit]));
    let us: S = &Shape::UnitStruct("Us");
    let all: Vec<S> = vec![
        &Shape::U8,
        ab,
        dn,
        en,
        us,
        &Shape::Unit,
        &Shape::Str,
        &Shape::Opt(&Shape::U8),
        &Shape::Seq(&Shape::U8),
        &Shape::Map(&Shape::Str, &Shape::U8),
        &Shape::Any,
        &Shape::Ignored,
        &Shape::Newtype("Nt", &Shape::U8),
    ];
    all.into_iter().map(|s| [s, &Shape::Str]).collect()
}

/// The message must give the reason, when there is just one.
fn message(c: Cfg, w: &Why, got: &str) -> Result<(), String> {
    let (tag, content) = match c.repr() {
        Repr::Int { tag, .. } => (tag, ""),
        Repr::Adj { tag, content, .. } => (tag, content),
        Repr::Ext => ("", ""),
    };
    let has = |s: &str| if got.contains(s) { Ok(()) } else { Err(format!("the error does not mention {s:?}: {got}")) };
    match w {
        Why::NoTag | Why::DupTag => has(&format!("`{tag}`")),
        Why::NoContent if is_adj(c) && !got.starts_with("invalid type") => has(&format!("`{content}`")),
        Why::DupContent => has(&format!("`{content}`")),
        Why::Unknown(t) => {
            has(&format!("`{t}`"))?;
            let list: Vec<String> = SORTED.iter().map(|t| format!("`{t}`")).collect();
            has(&list.join(", "))
        }
        Why::Denied(f) => {
            has(&format!("`{f}`"))?;
            has(&format!("`{tag}`"))?;
            has(&format!("`{content}`"))
        }
        _ => Ok(()),
    }
}

/// How many things are wrong with the envelope: a message is only expected for a single one.
fn single_fault(c: Cfg, d: &Doc, w: &Why) -> bool {
    let Doc::Map(m) = d else { return matches!(w, Why::Unknown(_)) };
    let count = |k: &str| m.iter().filter(|e| e.0 == doc::s(k)).count();
    match c.repr() {
        Repr::Ext => true,
        Repr::Int { tag, .. } => match w {
            Why::NoTag => m.iter().all(|(k, _)| matches!(k, Doc::Str(_))),
            Why::Unknown(_) => count(tag) <= 1 && m.iter().all(|(k, _)| matches!(k, Doc::Str(_))),
            _ => false,
        },
        Repr::Adj { tag, content, deny, .. } => {
            let plain = m.iter().all(|(k, _)| *k == doc::s(tag) || *k == doc::s(content) || (!deny && matches!(k, Doc::Str(_))));
            let tag_ok = m.iter().all(|(k, v)| *k != doc::s(tag) || *v == doc::s("Alpha"));
            match w {
                Why::NoTag => plain && count(content) <= 1,
                Why::NoContent => plain && count(tag) == 0,
                Why::DupTag => plain && tag_ok && count(content) == 0,
                Why::DupContent => plain && tag_ok && count(content) == 2 && count(tag) == 0,
                Why::Unknown(_) => plain && count(tag) <= 1 && count(content) <= 1,
                Why::Denied(_) => count(tag) == 0 && count(content) == 0 && m.len() == 1,
                _ => false,
            }
        }
    }
}

pub fn c08(t: &Tier) -> Acc {
    let mut acc = crate::small::run("C08", t);
    acc.merge(c08_envelopes(t));
    acc
}

fn c08_envelopes(t: &Tier) -> Acc {
    let mut jobs = Vec::new();
    for c in CFGS {
        for s in envelope_shapes() {
            jobs.push((*c, s));
        }
    }
    par(&jobs, |&(c, sl), acc| {
        let n = if t.thorough { 4 } else { 3 };
        // the longest documents only with the first shapes
        let n = if n == 4 && !matches!(sl[0], Shape::U8 | Shape::Struct(_)) { 3 } else { n };
        let docs = envelope_docs(c, n);
        let modes: &[(Style, Text)] = if t.thorough && n < 4 {
            &[(Style::Json, Text::Borrowed), (Style::Typed, Text::Owned), (Style::Cbor, Text::Transient)]
        } else {
            &[(Style::Json, Text::Borrowed), (Style::Cbor, Text::Transient)]
        };
        for &(style, text) in modes {
            let cx = Cx::new(style, text, true);
            for d in &docs {
                if is_adj(c) && has_key(d, 0, c) && !has_key(d, 1, c) && !spec::absent_is_clear(sl[0]) {
                    acc.skipped += 1;
                    continue;
                }
                acc.state(&(c, sl[0] as *const Shape as usize, style, text, format!("{d:?}")));
                let Some((exp, got)) = check_doc("C08", c, sl, d, &cx, acc) else { continue };
                if let (Err(w), Err(m)) = (&exp, &got) {
                    acc.count(&format!("{w:?}").split('(').next().unwrap().to_string(), 1);
                    if m.starts_with("harness") {
                        acc.viol("C08", format!("{c:?} {d:?}"), format!("the format is misused: {m}"));
                    }
                    if single_fault(c, d, w) {
                        acc.count("messages", 1);
                        if let Err(e) = message(c, w, m) {
                            acc.viol("C08/message", format!("{c:?} shapes={sl:?} {style:?} doc={d:?} reason={w:?}"), e);
                        }
                    }
                }
                acc.sample(|| format!("{c:?} {d:?} => {got:?}"));
            }
        }
    })
}

fn has_key(d: &Doc, which: usize, c: Cfg) -> bool {
    let Repr::Adj { tag, content, .. } = c.repr() else { return false };
    match d {
        Doc::Map(m) => m.iter().any(|(k, _)| *k == doc::s([tag, content][which])),
        _ => false,
    }
}

pub fn c10(t: &Tier) -> Acc {
    let mut jobs: Vec<(Cfg, TV)> = Vec::new();
    for c in [Cfg::IntDef, Cfg::IntEmpty, Cfg::IntNo, Cfg::Int, Cfg::AdjDef, Cfg::AdjDefDeny, Cfg::AdjNo, Cfg::Adj] {
        for tv in gen::shapes(t.depth() - 1) {
            jobs.push((c, tv));
        }
    }
    let mut acc = par(&jobs, |(c, tv), acc| {
        let sl: [S; NT] = [tv.s, tv.s];
        let (tag, default) = match c.repr() {
            Repr::Int { tag, default } | Repr::Adj { tag, default, .. } => (tag, default),
            Repr::Ext => unreachable!(),
        };
        for v in &tv.v {
            if tag_field(*c, v) || tag_key(*c, v) {
                continue;
            }
            for (style, text, human) in [(Style::Json, Text::Borrowed, true), (Style::Narrow, Text::Transient, false), (Style::Typed, Text::Owned, true), (Style::Cbor, Text::Borrowed, false)] {
                if style == Style::Json && !gen::text_keys(tv.s) {
                    continue;
                }
                let base = rec(v, human, 0, acc).unwrap().toks;
                let Some(d) = from_toks(&spec::ser(c.repr(), default.unwrap_or("Alpha"), &base), style) else { continue };
                let Some((tagged, rest)) = apart(*c, &d) else { continue };
                if is_int(*c) && rest.iter().any(|(k, _)| !matches!(k, Doc::Str(_))) {
                    continue;
                }
                let cx = Cx::new(style, text, human);
                let bare = Doc::Map(rest.clone());
                acc.state(&(c, style, tv.s as *const Shape as usize, format!("{bare:?}")));
                let case = || format!("{c:?} {style:?} {text:?} human={human} shape={:?} doc={bare:?}", tv.s);
                let got = de_doc(*c, sl, &bare, &cx, acc);
                match default {
                    None => {
                        if !matches!(&got, Ok(Err(m)) if m.contains(&format!("`{tag}`"))) {
                            acc.viol("C10", case(), format!("without a default and without the tag: {got:?}"));
                        }
                    }
                    Some("Nope") => {
                        if !matches!(&got, Ok(Err(_))) {
                            acc.viol("C10", case(), format!("the default names no impl: {got:?}"));
                        }
                        // but a tag that is there does not need it
                        let mut m = rest.clone();
                        m.insert(0, (doc::s(tag), doc::s("Alpha")));
                        let with = de_doc(*c, sl, &Doc::Map(m), &cx, acc);
                        let other = if is_int(*c) { Cfg::Int } else { Cfg::Adj };
                        let mut m = rest.clone();
                        m.insert(0, (doc::s(tag), doc::s("Alpha")));
                        let plain = de_doc(other, sl, &Doc::Map(m), &cx, acc);
                        if with != plain {
                            acc.viol("C10", case(), format!("with the tag written: {with:?}; for the trait without a default: {plain:?}"));
                        }
                    }
                    Some(_) => {
                        for at in 0..=rest.len() {
                            let mut m = rest.clone();
                            m.insert(at, tagged.clone());
                            let m = Doc::Map(m);
                            let with = de_doc(*c, sl, &m, &cx, acc);
                            let equal = match (&got, &with) {
                                (Ok(Ok(a)), Ok(Ok(b))) => a == b,
                                (Ok(Err(_)), Ok(Err(_))) => true,
                                _ => false,
                            };
                            if !equal {
                                acc.viol("C10", case(), format!("without the tag: {got:?}; with it ({m:?}): {with:?}"));
                            }
                            // and a bad tag is not replaced by the default
                            for bad in [doc::s("Nope"), Doc::U64(1), Doc::Null, Doc::None, doc::s("alpha\u{301}")] {
                                let mut m = rest.clone();
                                m.insert(at, (doc::s(tag), bad));
                                let m = Doc::Map(m);
                                let r = de_doc(*c, sl, &m, &cx, acc);
                                if !matches!(r, Ok(Err(_))) {
                                    acc.viol("C10", format!("{c:?} {style:?} shape={:?} doc={m:?}", tv.s), format!("a bad tag gives {r:?}"));
                                }
                            }
                        }
                        acc.sample(|| format!("{} => {got:?}", case()));
                    }
                }
            }
        }
    });
    // the default is no more than the tag: all envelopes, with every impl's tag written, agree with
    // the trait without a default
    let pairs = [(Cfg::IntDef, Cfg::Int), (Cfg::AdjDef, Cfg::Adj), (Cfg::AdjDefDeny, Cfg::AdjDeny), (Cfg::IntNo, Cfg::Int), (Cfg::AdjNo, Cfg::Adj)];
    let mut jobs = Vec::new();
    for p in pairs {
        for s in envelope_shapes() {
            jobs.push((p, s));
        }
    }
    acc.merge(par(&jobs, |&((c, plain), sl), acc| {
        let tag = match c.repr() {
            Repr::Int { tag, .. } | Repr::Adj { tag, .. } => tag,
            Repr::Ext => unreachable!(),
        };
        let cx = Cx::new(Style::Json, Text::Borrowed, true);
        for d in envelope_docs(c, if t.thorough { 3 } else { 2 }) {
            let tagged = matches!(&d, Doc::Map(m) if m.iter().any(|e| e.0 == doc::s(tag))) || !matches!(d, Doc::Map(_));
            if !tagged {
                check_doc("C10", c, sl, &d, &cx, acc);
                continue;
            }
            acc.state(&(c, sl[0] as *const Shape as usize, format!("{d:?}")));
            let (a, b) = (de_doc(c, sl, &d, &cx, acc), de_doc(plain, sl, &d, &cx, acc));
            if a != b {
                acc.viol("C10", format!("{c:?} shapes={sl:?} doc={d:?}"), format!("{a:?}, but without a default {b:?}"));
            }
        }
    }));
    acc
}

/// Names of unknown entries: the smallest, the largest, other scripts, and what other conventions give a meaning.
fn unknown_names(tag: &str, content: &str) -> Vec<String> {
    let swap = |s: &str| s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>();
    let mut out: Vec<String> = [
        "", " ", "\0", "_", "__", "_x", "$", "$ref", "$schema", "@type", "#", "#text", "//", "-", "~", ".", "/", "x-ext", "X", "type", "tag", "content", "data", "version",
        "0", "1", "2", "-1", "true", "null", "()", "Box", "r#type", "r#t", "\u{e9}", "e\u{301}", "\u{1f600}", "\u{feff}", "\u{200b}", "\u{7f}", "\"", "'", "\\", "\n",
        "$serde_json::private::Number", "$serde_json::private::RawValue", "__serde_unknown", "Tr", "Beta",
    ]
    .map(String::from)
    .to_vec();
    for k in [tag, content] {
        out.extend([swap(k), format!(" {k}"), format!("\u{feff}{k}"), format!("{k}{k}"), format!("{k}."), format!("{k}\u{301}"), format!("_{k}"), format!("${k}"), format!("-{k}"), format!("{k}s"), format!("`{k}`"), format!("r#{k}"), format!("{k}\u{200b}")]);
        out.push(k.chars().skip(1).collect());
        out.push(k.chars().map(|c| char::from_u32(c as u32 + 1).unwrap()).collect());
        out.push(k.chars().map(|c| char::from_u32(c as u32 + 0xfee0).unwrap()).collect());
        out.push(k.chars().map(|c| char::from_u32(c as u32 + 0x100).unwrap()).collect());
    }
    out.push(format!("{tag}{content}"));
    out.push(format!("{tag}.{content}"));
    for n in [7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 255, 256, 1000, 70_000] {
        out.push("x".repeat(n));
    }
    out.retain(|n| n != tag && n != content);
    out.sort();
    out.dedup();
    out
}

pub fn c11(t: &Tier) -> Acc {
    let mut acc = c11_one(t);
    acc.merge(c11_many(t));
    acc
}

/// Many unknown entries at once, in one place or in every place, all different or all the same.
fn c11_many(t: &Tier) -> Acc {
    let shapes = gen::shapes(if t.thorough { 1 } else { 0 });
    let counts: &[usize] = if t.thorough { &[2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 4097, 66_000] } else { &[3, 8, 17, 33, 65, 100, 129, 257, 1025, 4097] };
    let mut jobs = Vec::new();
    for c in CFGS.iter().filter(|c| is_adj(**c)) {
        for n in counts {
            jobs.push((*c, *n));
        }
    }
    par(&jobs, |(c, n), acc| {
        let Repr::Adj { tag, content, deny, default } = c.repr() else { return };
        let some: Vec<Doc> = vec![Doc::U8(1), doc::s("Alpha"), Doc::Opaque, Doc::Map(vec![(doc::s(tag), doc::s("Nope")), (doc::s(content), Doc::Opaque)])];
        for (si, tv) in shapes.iter().enumerate() {
            // the largest documents with some of the contents only
            if *n > 1000 && si % 16 != 0 {
                continue;
            }
            let (style, text, human) = [(Style::Json, Text::Borrowed, true), (Style::Typed, Text::Owned, false), (Style::Cbor, Text::Transient, true)][si % 3];
            if style == Style::Json && !gen::text_keys(tv.s) {
                continue;
            }
            let cx = Cx::new(style, text, human);
            let base = rec(&tv.v[0], human, 0, acc).unwrap().toks;
            let Some(body) = from_toks(&base, style) else { continue };
            let (te, ce) = ((doc::s(tag), doc::s("Alpha")), (doc::s(content), body));
            let mut cores = vec![vec![te.clone(), ce.clone()], vec![ce.clone(), te.clone()]];
            if default.is_some() {
                cores.push(vec![ce.clone()]);
            }
            for core in cores {
                let plain = de_doc(*c, slots(tv.s), &Doc::Map(core.clone()), &cx, acc);
                for same in [false, true] {
                    // the place they all stand in, or every place in turn
                    for at in 0..=core.len() + 1 {
                        let name = |i: usize| if same { "x".to_string() } else { format!("x{i}") };
                        let mut m = Vec::new();
                        for place in 0..=core.len() {
                            m.extend((0..*n).filter(|i| at == place || at > core.len() && i % (core.len() + 1) == place).map(|i| (doc::s(&name(i)), some[(i + si) % some.len()].clone())));
                            m.extend(core.get(place).cloned());
                        }
                        let first = m.iter().find_map(|(k, _)| match k {
                            Doc::Str(s) if s != tag && s != content => Some(s.clone()),
                            _ => None,
                        });
                        acc.state(&(c, n, si, same, at, core.len(), &core[0].0 == &te.0));
                        let got = de_doc(*c, slots(tv.s), &Doc::Map(m), &cx, acc);
                        let bad = match (&plain, &got) {
                            (Ok(Err(_)), Ok(Err(_))) => false,
                            (_, Ok(Err(m))) if deny => !m.contains(&format!("`{}`", first.unwrap())),
                            (Ok(Ok(a)), Ok(Ok(b))) if !deny => a != b,
                            _ => true,
                        };
                        if bad {
                            acc.viol("C11/many", format!("{c:?} {style:?} {text:?} shape={:?} core={core:?} with {n} unknown entries (place {at}, same name: {same})", tv.s), format!("without them: {plain:?}; with them: {got:?}"));
                        }
                    }
                }
            }
        }
        acc.sample(|| format!("{c:?}: {n} unknown entries"));
    })
}

fn c11_one(t: &Tier) -> Acc {
    let mut jobs = Vec::new();
    for c in CFGS.iter().filter(|c| is_adj(**c)) {
        for tv in gen::shapes(if t.thorough { 2 } else { 1 }) {
            jobs.push((*c, tv));
        }
    }
    let mut values = extras();
    values.push(Doc::Opaque);
    values.push(Doc::Seq(vec![Doc::Opaque]));
    values.push(Doc::Map(vec![(doc::s(""), Doc::Opaque), (Doc::Opaque, Doc::Null)]));
    for tv in gen::leaves().iter().chain(gen::wraps(&gen::u8s(), 2).iter()) {
        for v in &tv.v {
            let b = crate::tok::record(v, true).unwrap();
            if let Some(d) = from_toks(&b, Style::Typed) {
                if !values.contains(&d) {
                    values.push(d);
                }
            }
        }
    }
    let small = gen::shapes(1).len();
    let all = if t.thorough { gen::shapes(2).len() } else { small };
    par(&jobs, |(c, tv), acc| {
        let product = t.thorough && acc.job % all < small;
        let Repr::Adj { tag, content, deny, default } = c.repr() else { return };
        // names close to the two keys, or equal to what the content holds
        let close: Vec<String> = vec!["x".into(), "a".repeat(3), format!("{tag} "), format!("{content}\0"), tag.to_uppercase() + "_", "value".into(), "Alpha".into()];
        let names: Vec<String> = close.iter().cloned().chain(unknown_names(tag, content)).collect();
        for (vi, v) in tv.v.iter().enumerate() {
            let (style, text, human) = [(Style::Json, Text::Borrowed, true), (Style::Typed, Text::Owned, false), (Style::Cbor, Text::Transient, true)][vi % 3];
            if style == Style::Json && !gen::text_keys(tv.s) {
                continue;
            }
            let cx = Cx::new(style, text, human);
            let base = rec(v, human, 0, acc).unwrap().toks;
            let Some(body) = from_toks(&base, style) else { continue };
            let mut cores: Vec<Vec<(Doc, Doc)>> = Vec::new();
            let (te, ce) = ((doc::s(tag), doc::s("Alpha")), (doc::s(content), body));
            cores.push(vec![te.clone(), ce.clone()]);
            cores.push(vec![ce.clone(), te.clone()]);
            if default.is_some() {
                cores.push(vec![ce.clone()]);
            }
            if spec::absent_is_clear(tv.s) {
                cores.push(vec![te.clone()]);
            }
            for core in cores {
                let plain = de_doc(*c, slots(tv.s), &Doc::Map(core.clone()), &cx, acc);
                // every name with some value, every value with some name
                let mut pairs: Vec<(usize, usize)> = (0..names.len().max(values.len())).map(|i| (i % names.len(), i % values.len())).collect();
                if product {
                    pairs.extend((0..close.len()).flat_map(|n| (0..values.len()).map(move |v| (n, v))));
                }
                for (name, val) in pairs.into_iter().map(|(n, v)| (&names[n], &values[v])) {
                    {
                        for at in 0..=core.len() {
                            for twice in [false, true] {
                                let mut m = core.clone();
                                m.insert(at, (doc::s(name), val.clone()));
                                if twice {
                                    m.push((doc::s(name), val.clone()));
                                }
                                let m = Doc::Map(m);
                                acc.state(&(c, style, tv.s as *const Shape as usize, format!("{m:?}")));
                                let got = de_doc(*c, slots(tv.s), &m, &cx, acc);
                                let case = || format!("{c:?} {style:?} {text:?} shape={:?} doc={m:?}", tv.s);
                                if !deny {
                                    let equal = match (&plain, &got) {
                                        (Ok(Ok(a)), Ok(Ok(b))) => a == b,
                                        (Ok(Err(_)), Ok(Err(_))) => true,
                                        _ => false,
                                    };
                                    if !equal {
                                        acc.viol("C11", case(), format!("without the entry: {plain:?}; with it: {got:?}"));
                                    }
                                } else {
                                    match &got {
                                        Ok(Err(msg)) => {
                                            // an error of the content can come first
                                            let content_fails = matches!(plain, Ok(Err(_)));
                                            for k in [name.as_str(), tag, content] {
                                                if !content_fails && !msg.contains(&format!("`{k}`")) {
                                                    acc.viol("C11/message", case(), format!("the error does not name {k:?}: {msg}"));
                                                }
                                            }
                                        }
                                        r => acc.viol("C11", case(), format!("an unknown entry is not denied: {r:?}")),
                                    }
                                }
                                acc.sample(|| format!("{} => {got:?}", case()));
                            }
                        }
                    }
                }
            }
        }
    })
}

// ---------------------------------------------------------------- C12

/// The value with its i-th leaf replaced.
fn replace_leaf(v: &Val, i: &mut usize, with: &Val) -> Val {
    let mut go = |v: &Val| replace_leaf(v, i, with);
    match v {
        Val::Some(v) => Val::Some(Box::new(go(v))),
        Val::Newtype(n, v) => Val::Newtype(n, Box::new(go(v))),
        Val::Seq(q, s) => Val::Seq(q.iter().map(go).collect(), *s),
        Val::Tuple(q) => Val::Tuple(q.iter().map(go).collect()),
        Val::TupleStruct(n, q) => Val::TupleStruct(n, q.iter().map(go).collect()),
        Val::Map(m, s) => Val::Map(m.iter().map(|(k, v)| (go(k), go(v))).collect(), *s),
        Val::Struct(n, f) => Val::Struct(n, f.iter().map(|(k, v)| (*k, go(v))).collect()),
        Val::StructSkip(n, f, s) => Val::StructSkip(n, f.iter().map(|(k, v)| (*k, go(v))).collect(), s),
        Val::Var(n, k, va, p) => Val::Var(
            n,
            *k,
            va,
            match p {
                Pay::Unit => Pay::Unit,
                Pay::New(v) => Pay::New(Box::new(go(v))),
                Pay::Tup(q) => Pay::Tup(q.iter().map(go).collect()),
                Pay::Struct(f) => Pay::Struct(f.iter().map(|(k, v)| (*k, go(v))).collect()),
            },
        ),
        leaf => {
            *i = i.wrapping_sub(1);
            if *i == usize::MAX {
                with.clone()
            } else {
                leaf.clone()
            }
        }
    }
}

/// The shapes with each leaf in turn replaced by one that fails.
fn failing_shapes(s: S, with: S) -> Vec<S> {
    let mut out: Vec<S> = Vec::new();
    let each = |q: &Vec<S>| -> Vec<Vec<S>> {
        let mut o = Vec::new();
        for i in 0..q.len() {
            for f in failing_shapes(q[i], with) {
                let mut q = q.clone();
                q[i] = f;
                o.push(q);
            }
        }
        o
    };
    let redo = |st: &crate::shape::St, q: Vec<S>| crate::shape::St { name: st.name, fields: st.fields, shapes: q, default: st.default.clone(), deny: st.deny };
    match s {
        Shape::Opt(s) => out.extend(failing_shapes(s, with).into_iter().map(|s| leak(Shape::Opt(s)))),
        Shape::Newtype(n, s) => out.extend(failing_shapes(s, with).into_iter().map(|s| leak(Shape::Newtype(n, s)))),
        Shape::Seq(s) => out.extend(failing_shapes(s, with).into_iter().map(|s| leak(Shape::Seq(s)))),
        Shape::Map(k, v) => {
            out.extend(failing_shapes(k, with).into_iter().map(|k| leak(Shape::Map(k, v))));
            out.extend(failing_shapes(v, with).into_iter().map(|v| leak(Shape::Map(k, v))));
        }
        Shape::Tuple(q) => out.extend(each(q).into_iter().map(|q| leak(Shape::Tuple(q)))),
        Shape::TupleStruct(n, q) => out.extend(each(q).into_iter().map(|q| leak(Shape::TupleStruct(n, q)))),
        Shape::Struct(st) => out.extend(each(&st.shapes).into_iter().map(|q| leak(Shape::Struct(redo(st, q))))),
        Shape::Enum(n, vs, ps) => {
            for i in 0..ps.len() {
                let alts: Vec<PayS> = match &ps[i] {
                    PayS::Unit => vec![],
                    PayS::New(s) => failing_shapes(s, with).into_iter().map(PayS::New).collect(),
                    PayS::Tup(q) => each(q).into_iter().map(PayS::Tup).collect(),
                    PayS::Struct(st) => each(&st.shapes).into_iter().map(|q| PayS::Struct(redo(st, q))).collect(),
                };
                for a in alts {
                    let mut q: Vec<PayS> = ps.iter().map(clone_pay).collect();
                    q[i] = a;
                    out.push(leak(Shape::Enum(n, vs, q)));
                }
            }
        }
        _ => out.push(with),
    }
    out
}
fn clone_pay(p: &PayS) -> PayS {
    match p {
        PayS::Unit => PayS::Unit,
        PayS::New(s) => PayS::New(s),
        PayS::Tup(q) => PayS::Tup(q.clone()),
        PayS::Struct(st) => PayS::Struct(crate::shape::St { name: st.name, fields: st.fields, shapes: st.shapes.clone(), default: st.default.clone(), deny: st.deny }),
    }
}

const OWN: &str = "concrete-failure \u{2603} 4711";

pub fn c12(t: &Tier) -> Acc {
    let jobs = gen::shapes(t.depth() - 1);
    let fail: S = leak(Shape::Fail(OWN));
    par(&jobs, |tv, acc| {
        let failing = failing_shapes(tv.s, fail);
        for (vi, v) in tv.v.iter().enumerate() {
            for c in CFGS {
                if tag_field(*c, v) || no_default(*c) {
                    continue;
                }
                let human = (vi + acc.job) % 2 == 0;
                // writing: a fault at every call
                let clean = rec(&Tagged(*c, 0, v), human, 0, acc).map(|r| (r.calls, r.r));
                let Ok((calls, Ok(()))) = clean else {
                    acc.viol("C12", format!("{c:?} value={v:?}"), format!("fails without a fault: {clean:?}"));
                    continue;
                };
                for k in 1..=calls {
                    acc.state(&(c, "w", k, format!("{v:?}")));
                    match rec(&Tagged(*c, 0, v), human, k, acc) {
                        Ok(Run { r: Err(e), after: 0, .. }) if e.0.contains(FAULT) => acc.rejected += 1,
                        r => acc.viol(
                            "C12",
                            format!("{c:?} value={v:?}: the format fails at call {k} of {calls}"),
                            format!("{:?}", r.map(|r| (r.r, r.after))),
                        ),
                    }
                }
                // writing: the concrete type fails at every leaf
                let own = Val::Fail(OWN.into());
                for i in 0.. {
                    let mut left = i;
                    let w = replace_leaf(v, &mut left, &own);
                    if left != usize::MAX {
                        break;
                    }
                    acc.state(&(c, "t", i, format!("{v:?}")));
                    match rec(&Tagged(*c, 0, &w), human, 0, acc) {
                        Ok(Run { r: Err(e), .. }) if e.0.contains(OWN) => acc.rejected += 1,
                        r => acc.viol("C12", format!("{c:?} value={w:?}: the type fails"), format!("{:?}", r.map(|r| r.r))),
                    }
                }
                // reading: a fault at every call, with the tag first and last
                let base = rec(v, human, 0, acc).unwrap().toks;
                let style = STYLES[(vi + acc.job) % STYLES.len()];
                let text = TEXTS[(vi + acc.job / 3) % 3];
                let toks = spec::ser(c.repr(), "Alpha", &base);
                let mut docs = Vec::new();
                if let Some(d) = from_toks(&toks, style) {
                    if let Some((tag, mut rest)) = apart(*c, &d) {
                        rest.push(tag);
                        docs.push(Doc::Map(rest));
                    }
                    // and something to step over, everywhere
                    let steps = match c.repr() {
                        Repr::Adj { deny, .. } => !deny,
                        Repr::Int { .. } => takes_extras(tv.s),
                        Repr::Ext => false,
                    };
                    docs.push(d);
                    if steps {
                        for (i, d) in docs.clone().into_iter().enumerate() {
                            let Doc::Map(m) = d else { continue };
                            for at in 0..=m.len() {
                                let mut m = m.clone();
                                let es = extras();
                                m.insert(at, (doc::s("zz"), es[(vi + at + i) % es.len()].clone()));
                                docs.push(Doc::Map(m));
                            }
                        }
                    }
                }
                for d in &docs {
                    let mut cx = Cx::new(style, text, human);
                    let clean = de_doc(*c, slots(tv.s), d, &cx, acc);
                    let n = cx.calls.get();
                    if clean.is_err() {
                        acc.viol("C12", format!("{c:?} doc={d:?}"), format!("{clean:?}"));
                        continue;
                    }
                    for k in 1..=n {
                        cx.fail_at = k;
                        acc.state(&(c, "r", k, style, format!("{d:?}"), tv.s as *const Shape as usize));
                        let r = de_doc(*c, slots(tv.s), d, &cx, acc);
                        let good = matches!(&r, Ok(Err(m)) if m.contains(FAULT)) && cx.after.get() == 0;
                        if !good {
                            acc.viol(
                                "C12",
                                format!("{c:?} {style:?} shape={:?} doc={d:?}: the format fails at call {k} of {n}", tv.s),
                                format!("{r:?}, {} calls after it", cx.after.get()),
                            );
                        }
                    }
                    // reading: the concrete type fails at every leaf
                    for &f in &failing {
                        let cx = Cx::new(style, text, human);
                        let plain = from_toks(&base, style).map(|d| spec::direct(f, &d, &cx));
                        // only where the type alone would fail
                        if !matches!(&plain, Some(Err(e)) if e.0.contains(OWN)) {
                            continue;
                        }
                        if guesses(*c, tv.s, v) {
                            continue;
                        }
                        if style == Style::Json && (!gen::text_keys(tv.s) || !human && gen::human_keys(tv.s)) {
                            continue;
                        }
                        // the envelope itself is at fault
                        if let (Repr::Int { tag, .. }, Doc::Map(m)) = (c.repr(), d) {
                            let is_tag = |k: &Doc| matches!(k, Doc::Str(k) if k == tag);
                            let first = m.first().is_some_and(|(k, _)| is_tag(k));
                            if m.iter().filter(|(k, _)| is_tag(k)).count() > 1
                                || !first && m.iter().any(|(k, _)| !matches!(k, Doc::Str(_)))
                            {
                                continue;
                            }
                        }
                        let r = de_doc(*c, slots(f), d, &cx, acc);
                        acc.state(&(c, "f", style, format!("{d:?}"), f as *const Shape as usize));
                        if !matches!(&r, Ok(Err(m)) if m.contains(OWN)) {
                            acc.viol("C12", format!("{c:?} {style:?} shape={f:?} doc={d:?}: the type fails"), format!("{r:?}"));
                        }
                    }
                }
                // reading a compact format
                for names in [false, true] {
                    let mut cx = Cx::compact(text, human, names);
                    if direct_strict(tv.s, &base, &cx).is_err() {
                        continue;
                    }
                    let _ = de_strict(*c, slots(tv.s), &toks, &cx, acc);
                    let n = cx.calls.get();
                    for k in 1..=n {
                        cx.fail_at = k;
                        acc.state(&(c, "s", k, names, format!("{v:?}"), tv.s as *const Shape as usize));
                        let r = de_strict(*c, slots(tv.s), &toks, &cx, acc);
                        let good = matches!(&r, Ok(Err(m)) if m.contains(FAULT)) && cx.after.get() == 0;
                        if !good {
                            acc.viol("C12", format!("{c:?} shape={:?} calls={toks:?} names={names}: the format fails at call {k} of {n}", tv.s), format!("{r:?}, {} calls after it", cx.after.get()));
                        }
                    }
                }
                acc.sample(|| format!("{c:?} value={v:?}: {calls} faults while writing"));
            }
        }
    })
}

// ---------------------------------------------------------------- C19, C21

fn has_human(s: S) -> bool {
    format!("{s:?}").contains("Human")
}

pub fn c19(t: &Tier) -> Acc {
    let mut jobs: Vec<TV> = vec![];
    let mut level = vec![TV { s: &Shape::Human, v: vec![Val::Human] }];
    for _ in 0..t.depth() + 1 {
        jobs.extend(level.iter().cloned());
        level = level.iter().flat_map(|t| gen::wraps(t, 1)).collect();
    }
    jobs.extend(gen::fixed().into_iter().filter(|t| has_human(t.s)));
    jobs.extend(gen::nested(&[Cfg::Ext, Cfg::Int, Cfg::Adj, Cfg::IntDef], &[TV { s: &Shape::Human, v: vec![Val::Human] }], 2));
    par(&jobs, |tv, acc| {
        for v in &tv.v {
            for human in [true, false] {
                let base = rec(v, human, 0, acc).unwrap().toks;
                for c in CFGS {
                    if tag_field(*c, v) || no_default(*c) {
                        continue;
                    }
                    let case = || format!("{c:?} human={human} shape={:?} value={v:?}", tv.s);
                    acc.state(&(c, human, format!("{v:?}"), tv.s as *const Shape as usize));
                    let exp = spec::ser(c.repr(), "Alpha", &base);
                    match rec(&Tagged(*c, 0, v), human, 0, acc) {
                        Ok(Run { r: Ok(()), toks, .. }) => {
                            let good = if is_int(*c) { same_internal(&exp, &toks) } else { exp == toks };
                            if !good {
                                acc.viol("C19/write", case(), format!("expected {exp:?}, got {toks:?}"));
                            }
                        }
                        r => acc.viol("C19/write", case(), format!("{:?}", r.map(|r| r.r))),
                    }
                    // reading what the model says should have been written
                    for style in STYLES {
                        let Some(plain) = from_toks(&base, style) else { continue };
                        let cx = Cx::new(style, Text::Transient, human);
                        if spec::direct(tv.s, &plain, &cx).as_ref() != Ok(v) {
                            continue;
                        }
                        let d = from_toks(&exp, style).unwrap();
                        let mut docs = vec![d.clone()];
                        if let Some((tag, mut rest)) = apart(*c, &d) {
                            let text = rest.iter().all(|(k, _)| matches!(k, Doc::Str(_)));
                            if (text || !is_int(*c)) && !tag_key(*c, v) && (style != Style::Json || gen::text_keys(tv.s) && (human || !gen::human_keys(tv.s))) {
                                rest.push(tag);
                                docs.push(Doc::Map(rest));
                            }
                        }
                        for d in docs {
                            acc.state(&(c, human, style, format!("{d:?}"), tv.s as *const Shape as usize));
                            let r = de_doc(*c, slots(tv.s), &d, &cx, acc);
                            if r != Ok(Ok((0, v.clone()))) {
                                acc.viol("C19/read", format!("{} {style:?} doc={d:?}", case()), format!("{r:?}"));
                            }
                        }
                    }
                    for names in [false, true] {
                        let cx = Cx::compact(Text::Transient, human, names);
                        if direct_strict(tv.s, &base, &cx).as_ref() != Ok(v) {
                            continue;
                        }
                        let r = de_strict(*c, slots(tv.s), &exp, &cx, acc);
                        if r != Ok(Ok((0, v.clone()))) {
                            acc.viol("C19/read", format!("{} compact names={names} calls={exp:?}", case()), format!("{r:?}"));
                        }
                    }
                    acc.sample(|| format!("{} => {exp:?}", case()));
                }
            }
            reals(&real::SELF_DESCRIBING, "C19/real", tv, v, v, acc);
            reals(&real::COMPACT, "C19/real", tv, v, v, acc);
        }
    })
}

/// Every trait object in the document, in order of appearance, has its tag moved to the end when its
/// bit is set. Returns how many there are.
fn move_tags(d: &Doc, mask: u32, n: &mut u32) -> Doc {
    match d {
        Doc::Map(m) => {
            let mut m: Vec<(Doc, Doc)> = m.clone();
            let at = m.iter().position(|(k, v)| {
                matches!(k, Doc::Str(k) if ["type", "~", "t"].contains(&k.as_str())) && matches!(v, Doc::Str(v) if TAGS.contains(&v.as_str()))
            });
            let mut rotated = false;
            if let Some(at) = at {
                rotated = mask >> *n & 1 == 1;
                *n += 1;
                if rotated {
                    let e = m.remove(at);
                    m.push(e);
                }
            }
            let _ = rotated;
            Doc::Map(m.iter().map(|(k, v)| (k.clone(), move_tags(v, mask, n))).collect())
        }
        Doc::Seq(q) => Doc::Seq(q.iter().map(|d| move_tags(d, mask, n)).collect()),
        Doc::Some(d) => Doc::Some(Box::new(move_tags(d, mask, n))),
        Doc::Newtype(d) => Doc::Newtype(Box::new(move_tags(d, mask, n))),
        d => d.clone(),
    }
}

/// A trait object in the place of the content of an internally tagged one: the entries of both share
/// one map, and only the order tells them apart.
fn shares_map(v: &Val) -> bool {
    fn inside(v: &Val) -> bool {
        let mut found = false;
        each(v, &mut |v| {
            if let Val::Obj(c, _, b) = v {
                if is_int(*c) && matches!(top(b), Val::Obj(..)) {
                    found = true;
                }
            }
        });
        found
    }
    matches!(top(v), Val::Obj(..)) || inside(v)
}
fn each(v: &Val, f: &mut impl FnMut(&Val)) {
    f(v);
    match v {
        Val::Some(v) | Val::Newtype(_, v) | Val::Obj(_, _, v) => each(v, f),
        Val::Seq(q, _) | Val::Tuple(q) | Val::TupleStruct(_, q) => q.iter().for_each(|v| each(v, f)),
        Val::Map(m, _) => m.iter().for_each(|(k, v)| {
            each(k, f);
            each(v, f);
        }),
        Val::Struct(_, q) | Val::StructSkip(_, q, _) => q.iter().for_each(|x| each(&x.1, f)),
        Val::Var(_, _, _, p) => match p {
            Pay::Unit => {}
            Pay::New(v) => each(v, f),
            Pay::Tup(q) => q.iter().for_each(|v| each(v, f)),
            Pay::Struct(q) => q.iter().for_each(|x| each(&x.1, f)),
        },
        _ => {}
    }
}

pub fn c21(t: &Tier) -> Acc {
    let cfgs = [Cfg::Ext, Cfg::Int, Cfg::IntLate, Cfg::Adj, Cfg::AdjDef];
    let small: Vec<TV> = gen::leaves()
        .into_iter()
        .filter(|t| matches!(t.s, Shape::U8 | Shape::Unit | Shape::Str))
        .chain(gen::wraps(&gen::u8s(), 1))
        .chain(gen::fixed().into_iter().filter(|t| matches!(t.s, Shape::Struct(s) if s.name == "Sd")))
        .collect();
    let jobs = gen::nested(&cfgs, &small, 1);
    let mut jobs = jobs;
    let tiny: Vec<TV> = gen::wraps(&gen::u8s(), 1).into_iter().filter(|t| matches!(t.s, Shape::Struct(_) | Shape::Seq(_))).collect();
    let at = |q: Vec<TV>, n| q.into_iter().filter(move |t| nesting(t.s) == n);
    if t.thorough {
        jobs.extend(at(gen::nested(&cfgs, &small, 2), 2));
        jobs.extend(at(gen::nested(&[Cfg::Int, Cfg::Adj], &[gen::u8s()], 3), 3));
    } else {
        jobs.extend(at(gen::nested(&[Cfg::Ext, Cfg::Int, Cfg::Adj], &tiny, 2), 2));
    }
    par(&jobs, |tv, acc| {
        for (vi, v) in tv.v.iter().enumerate() {
            let human = vi % 2 == 0;
            let base = rec(v, human, 0, acc).unwrap().toks;
            for c in cfgs {
                if tag_field(c, v) {
                    continue;
                }
                let toks = match rec(&Tagged(c, 0, v), human, 0, acc) {
                    Ok(Run { r: Ok(()), toks, .. }) => toks,
                    r => {
                        acc.viol("C21", format!("{c:?} value={v:?}"), format!("serialization: {:?}", r.map(|r| r.r)));
                        continue;
                    }
                };
                let share = shares_map(&Val::Obj(c, 0, Box::new(v.clone())));
                for (style, text) in [(Style::Json, Text::Borrowed), (Style::Narrow, Text::Owned), (Style::Typed, Text::Transient), (Style::Cbor, Text::Borrowed)] {
                    let cx = Cx::new(style, text, human);
                    let Some(plain) = from_toks(&base, style) else { continue };
                    if spec::direct(tv.s, &plain, &cx).as_ref() != Ok(v) {
                        // the value alone is a nested one: the reader has to cope with it as written,
                        // unless a format cannot tell its options apart
                        if !lossy(v, style) {
                            acc.viol("C21", format!("{style:?} shape={:?} doc={plain:?}", tv.s), format!("{:?} instead of {v:?}", spec::direct(tv.s, &plain, &cx)));
                        }
                        continue;
                    }
                    let Some(d) = from_toks(&toks, style) else { continue };
                    let mut n = 0;
                    move_tags(&d, 0, &mut n);
                    let masks = if share { 1 } else { 1u32 << n.min(6) };
                    for mask in 0..masks {
                        let m = move_tags(&d, mask, &mut 0);
                        acc.state(&(c, style, text, human, format!("{m:?}"), tv.s as *const Shape as usize));
                        let r = de_doc(c, slots(tv.s), &m, &cx, acc);
                        if r != Ok(Ok((0, v.clone()))) {
                            acc.viol("C21", format!("{c:?} {style:?} {text:?} human={human} shape={:?} doc={m:?}", tv.s), format!("{r:?} instead of {v:?}"));
                        }
                        acc.sample(|| format!("{c:?} {style:?} {m:?}"));
                    }
                }
                for names in [false, true] {
                    let cx = Cx::compact(Text::Borrowed, human, names);
                    let r = de_strict(c, slots(tv.s), &toks, &cx, acc);
                    if r != Ok(Ok((0, v.clone()))) {
                        acc.viol("C21", format!("{c:?} compact names={names} human={human} shape={:?} calls={toks:?}", tv.s), format!("{r:?} instead of {v:?}"));
                    }
                }
                for r in [Real::Text, Real::Cbor, Real::Value, Real::Postcard, Real::Bincode] {
                    if share && r == Real::Value {
                        continue;
                    }
                    if matches!(r, Real::Text | Real::Value | Real::Cbor) && lossy(v, Style::Json) {
                        continue;
                    }
                    acc.count(&format!("{r:?}"), 1);
                    let out = real_trip(r, c, slots(tv.s), 0, v, acc);
                    if out != Ok((0, v.clone())) {
                        acc.viol("C21", format!("{r:?} {c:?} shape={:?} value={v:?}", tv.s), format!("{out:?}; written as {:?}", real::enc(r, &Tagged(c, 0, v))));
                    }
                }
            }
        }
    })
}

fn nesting(s: S) -> usize {
    format!("{s:?}").matches("Obj(").count()
}

/// JSON and its like cannot tell `Some(None)` or `Some(())` from `None`.
fn lossy(v: &Val, style: Style) -> bool {
    if style == Style::Typed {
        return false;
    }
    let mut found = false;
    each(v, &mut |v| {
        if let Val::Some(b) = v {
            if matches!(top(b), Val::None | Val::Unit | Val::UnitStruct(_)) {
                found = true;
            }
        }
    });
    found
}
