//! What operations cost and what they leave behind: C23 and C24.
use crate::cfg::{self, Cfg, Repr, Tagged, CFGS, TAGS};
use crate::checks::{check_doc, contents, de_doc, de_strict, guesses, no_default, own, rec, slots, tag_field, Got, Tier};
use crate::doc::{from_toks, s, Cx, Doc, Style, Text, HINTS, STYLES, TEXTS};
use crate::gen::{self, leak, st, TV};
use crate::meter::{self, Took};
use crate::report::{guard, par, Acc};
use crate::shape::{Shape, S};
use crate::tok::Tok;
use crate::val::Val;

/// Every trait is used once, so that its registry is there.
fn warm() {
    for c in CFGS {
        let cx = Cx::new(Style::Json, Text::Borrowed, true);
        let _ = de_doc(*c, slots(&Shape::U8), &Doc::Map(vec![(s("?"), Doc::Null)]), &cx, &mut Acc::default());
        let _ = de_doc(*c, slots(&Shape::U8), &Doc::Null, &cx, &mut Acc::default());
    }
    let _ = guard(|| panic!("once"));
}

fn metered<T>(f: impl FnOnce() -> T) -> (T, i64, Took) {
    cfg::settle();
    let l = meter::start();
    let r = f();
    let t = meter::took_since(l);
    (r, l, t)
}

/// The documents that show the content behind this way of tagging, the entries in every order that matters.
fn envelopes(c: Cfg, d: &Doc) -> Vec<Doc> {
    let mut out = Vec::new();
    let alpha = || s("Alpha");
    match c.repr() {
        Repr::Ext => out.push(Doc::Map(vec![(alpha(), d.clone())])),
        Repr::Int { tag, default } => {
            let mut rests = vec![vec![(s("value"), d.clone())]];
            if let Doc::Map(m) = d {
                if m.iter().all(|(k, _)| matches!(k, Doc::Str(k) if k != tag)) {
                    rests.push(m.clone());
                }
            }
            for r in rests {
                let mut at = vec![0, r.len() / 2, r.len()];
                at.dedup();
                for i in at {
                    let mut m = r.clone();
                    m.insert(i, (s(tag), alpha()));
                    out.push(Doc::Map(m));
                }
                if default.is_some() {
                    out.push(Doc::Map(r));
                }
            }
        }
        Repr::Adj { tag, content, default, deny } => {
            let (t, v) = ((s(tag), alpha()), (s(content), d.clone()));
            let x = (s("zz"), d.clone());
            out.push(Doc::Seq(vec![alpha(), d.clone()]));
            out.push(Doc::Map(vec![t.clone(), v.clone()]));
            out.push(Doc::Map(vec![v.clone(), t.clone()]));
            if !deny {
                out.push(Doc::Map(vec![x.clone(), t.clone(), v.clone()]));
                out.push(Doc::Map(vec![v.clone(), x.clone(), t.clone()]));
            }
            if default.is_some() {
                out.push(Doc::Map(vec![v]));
            }
        }
    }
    out
}

/// The size of a document: its nodes, and its text.
fn size(d: &Doc) -> i64 {
    1 + match d {
        Doc::Str(s) => s.len() as i64 / 8,
        Doc::Bytes(b) => b.len() as i64 / 8,
        Doc::Some(d) | Doc::Newtype(d) => size(d),
        Doc::Seq(q) => q.iter().map(size).sum(),
        Doc::Map(m) => m.iter().map(|(k, v)| size(k) + size(v)).sum(),
        _ => 0,
    }
}

/// What may be set aside in advance, on somebody's word.
const ADVANCE: i64 = 4 << 20;
/// What may be held for each node, and in any case.
const NODE: i64 = 256;
const BASE: i64 = 8 << 10;

pub fn c23(t: &Tier) -> Acc {
    let mut acc = hints(t);
    acc.merge(growth(t));
    acc
}

fn same_got(a: &Result<Got, String>, b: &Result<Got, String>) -> bool {
    match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) => a == b,
        (Ok(Err(_)), Ok(Err(_))) => true,
        _ => false,
    }
}

/// What the values of this shape look like, unspoiled.
fn plain(tv: &TV, style: Style, human: bool) -> Vec<Doc> {
    let mut out = Vec::new();
    for v in &tv.v {
        out.extend(from_toks(&crate::tok::record(v, human).unwrap(), style).filter(|d| !out.contains(d)));
    }
    out
}

fn hints(t: &Tier) -> Acc {
    let contents = contents();
    let jobs = gen::shapes(if t.thorough { 2 } else { 1 });
    let most = std::sync::atomic::AtomicI64::new(0);
    let mut acc = par(&jobs, |tv, acc| {
        warm();
        for (si, style) in STYLES.into_iter().enumerate() {
            for human in [true, false] {
                let own = if t.thorough { own(tv, style, human) } else { plain(tv, style, human) };
                let (step, off) = if t.thorough { (4, acc.job % 4) } else { (8, (acc.job * 5 + si) % 8) };
                for (di, d) in own.iter().chain(contents[si].iter().skip(off).step_by(step)).enumerate() {
                    for (ci, c) in CFGS.iter().filter(|c| !no_default(**c)).enumerate() {
                        for (ei, e) in envelopes(*c, d).into_iter().enumerate() {
                            let mut cx = Cx::new(style, TEXTS[(di + ci + ei) % 3], human);
                            let case = |cx: &Cx| format!("{c:?} {style:?} {:?} human={human} shape={:?} announced={:?} doc={e:?}", cx.text, tv.s, cx.hint);
                            let (want, _, plain) = metered(|| de_doc(*c, slots(tv.s), &e, &cx, acc));
                            let may = BASE + NODE * size(&e);
                            most.fetch_max((plain.peak - BASE).max(0) / size(&e), std::sync::atomic::Ordering::Relaxed);
                            if plain.peak > may {
                                acc.viol("C23/memory", case(&cx), format!("{} bytes are held for a document of size {}", plain.peak, size(&e)));
                            }
                            for h in HINTS {
                                cx.hint = h;
                                acc.state(&(c, style, cx.text, human, h, format!("{e:?}"), tv.s as *const Shape as usize));
                                let (got, _, took) = metered(|| de_doc(*c, slots(tv.s), &e, &cx, acc));
                                if !same_got(&want, &got) {
                                    acc.viol("C23/announced", case(&cx), format!("{want:?} without a length, {got:?} with it"));
                                }
                                if took.peak > may + ADVANCE {
                                    acc.viol("C23/memory", case(&cx), format!("{} bytes are held for a document of size {}", took.peak, size(&e)));
                                }
                            }
                            acc.sample(|| format!("{} => {want:?}, holding {} bytes", case(&cx), plain.peak));
                        }
                    }
                }
            }
        }
    });
    acc.count("most bytes held per node, beyond the base", most.into_inner() as u64);
    acc
}

const BEYOND: [usize; 6] = [63, 64, 129, 130, 300, 5000];
const DEEPEST: usize = 300;
/// Each trait object wraps the deserializer of those around it once more, as erased-serde does: the
/// stack that takes grows with the square, and formats end before it does.
const CHAINED: usize = 130;

/// Families of documents that grow: what they are to the trait, for each size.
fn families(n: usize) -> Vec<(&'static str, S, Doc)> {
    let u: S = &Shape::U8;
    let mut out = Vec::new();
    // wide
    let wide = Doc::Map((0..n).map(|i| (s(&format!("k{i}")), Doc::U8(1))).collect());
    out.push(("a wide map", leak(Shape::Map(&Shape::Str, u)), wide.clone()));
    out.push(("a wide map, of anything", &Shape::Any, wide.clone()));
    out.push(("a wide map, ignored", &Shape::Ignored, wide));
    let seq = Doc::Seq((0..n).map(|_| Doc::U8(1)).collect());
    out.push(("a long sequence", leak(Shape::Seq(u)), seq.clone()));
    out.push(("a long text", &Shape::Str, Doc::Str("x".repeat(n * 16))));
    if n > DEEPEST {
        return out;
    }
    // deep
    let mut d = Doc::U8(1);
    let (mut shape, mut m) = (u, Doc::U8(1));
    for _ in 0..n {
        d = Doc::Seq(vec![d]);
        m = Doc::Map(vec![(s("value"), m), (s("b"), Doc::U8(2))]);
        shape = leak(Shape::Seq(shape));
    }
    out.push(("sequences in sequences", shape, d));
    out.push(("maps in maps, of anything", leak(Shape::Map(&Shape::Str, &Shape::Any)), m.clone()));
    out.push(("maps in maps, ignored", leak(Shape::Map(&Shape::Str, &Shape::Ignored)), m));
    out
}

/// Trait objects in trait objects, the tag of each first or last.
fn chain(c: Cfg, n: usize, last: bool, wrap: usize) -> (S, Doc) {
    let mut sh: S = leak(Shape::Struct(st("St", &[("b", &Shape::U8)], false)));
    let mut d = Doc::Map(vec![(s("b"), Doc::U8(1))]);
    for i in 0..n {
        if i > 0 {
            // the object of the level below, in a field or as it is
            let f = match wrap {
                0 => sh,
                1 => leak(Shape::Opt(sh)),
                _ => leak(Shape::Seq(sh)),
            };
            let x = if wrap == 2 { Doc::Seq(vec![d]) } else { d };
            sh = leak(Shape::Struct(st("St", &[("x", f), ("b", &Shape::U8)], false)));
            d = Doc::Map(vec![(s("x"), x), (s("b"), Doc::U8(1))]);
        }
        d = match c.repr() {
            Repr::Ext => Doc::Map(vec![(s("Alpha"), d)]),
            Repr::Int { tag, .. } => {
                let Doc::Map(mut m) = d else { unreachable!() };
                m.insert(if last { m.len() } else { 0 }, (s(tag), s("Alpha")));
                Doc::Map(m)
            }
            Repr::Adj { tag, content, .. } => {
                let mut m = vec![(s(content), d)];
                m.insert(usize::from(last), (s(tag), s("Alpha")));
                Doc::Map(m)
            }
        };
        if i + 1 < n {
            sh = leak(Shape::Obj(c, [sh, &Shape::U8]));
        }
    }
    (sh, d)
}

fn growth(t: &Tier) -> Acc {
    let max = if t.thorough { 128 } else { 48 };
    let mut jobs: Vec<(Cfg, Option<(bool, usize)>)> = CFGS.iter().filter(|c| !no_default(**c)).map(|c| (*c, None)).collect();
    for c in [Cfg::Ext, Cfg::Int, Cfg::IntDef, Cfg::Adj, Cfg::AdjDeny] {
        for last in [false, true] {
            for wrap in 0..3 {
                jobs.push((c, Some((last, wrap))));
            }
        }
    }
    par(&jobs, |(c, chained), acc| {
        warm();
        let mut seen: std::collections::BTreeMap<(String, usize), Took> = Default::default();
        // and some that are far beyond where a limit may be, without one
        for n in (1..=max).chain(BEYOND) {
            let mut docs: Vec<(String, S, Doc)> = Vec::new();
            match chained {
                Some(_) if n > CHAINED => {}
                Some((last, wrap)) => {
                    let (sh, d) = chain(*c, n, *last, *wrap);
                    docs.push(("trait objects in trait objects".into(), sh, d));
                }
                None => {
                    for (name, sh, d) in families(n) {
                        for (i, e) in envelopes(*c, &d).into_iter().enumerate() {
                            docs.push((format!("{name}, order {i}"), sh, e));
                        }
                    }
                }
            }
            for (name, sh, d) in docs {
              for text in TEXTS {
                let cx = Cx::new(Style::Json, text, true);
                acc.state(&(&name, n, text));
                if n > max || n % 4 == 0 {
                    check_doc("C23/growth", *c, slots(sh), &d, &cx, acc);
                }
                let name = format!("{name}, {text:?}");
                let (got, _, took) = metered(|| de_doc(*c, slots(sh), &d, &cx, acc));
                let case = || format!("{c:?} {name} of size {n}, tag last and wrapped: {chained:?}");
                if let Err(m) = &got {
                    acc.viol("C23/growth", case(), format!("panic: {m}"));
                }
                if chained.is_some() && !matches!(got, Ok(Ok(_))) {
                    acc.viol("C23/growth", case(), format!("{got:?}"));
                }
                // a sequence in a sequence is a node that holds little more than its own value
                let node = if n > max { NODE * 3 / 2 } else { NODE };
                if took.peak > BASE + node * size(&d) {
                    acc.viol("C23/memory", case(), format!("{} bytes are held for a document of size {}", took.peak, size(&d)));
                }
                // each level may go over what is below it once
                let deep = n as i64 + 1;
                if took.total > BASE + NODE * size(&d) * deep {
                    acc.viol("C23/work", case(), format!("{} bytes are asked for, for a document of size {} and depth {deep}", took.total, size(&d)));
                }
                // what is done for each level does not double from one to the next
                if n >= 8 && n % 2 == 0 {
                    if let Some(half) = seen.get(&(name.clone(), n / 2)) {
                        if took.peak > 3 * half.peak + BASE / 2 {
                            acc.viol("C23/memory", case(), format!("{} bytes are held, and {} for half the size", took.peak, half.peak));
                        }
                        if took.total > 6 * half.total + BASE {
                            acc.viol("C23/work", case(), format!("{} bytes are asked for, and {} for half the size", took.total, half.total));
                        }
                    }
                }
                seen.insert((name, n), took);
              }
            }
        }
        for ((name, n), took) in seen {
            if n == max {
                acc.sample(|| format!("{c:?} {name} of size {n}: {} bytes at once, {} in all", took.peak, took.total));
            }
        }
    })
}

// ---------------------------------------------------------------- C24

/// The types that may be asked to decode this: none, or the one selected, at most once.
fn candidate(c: Cfg, d: &Doc) -> Option<usize> {
    let named = |d: &Doc| match d {
        Doc::Str(s) => TAGS.iter().position(|t| t == s),
        _ => None,
    };
    let entry = |m: &[(Doc, Doc)], tag: &str| m.iter().find(|(k, _)| *k == s(tag)).map(|(_, v)| v.clone());
    match (c.repr(), d) {
        (Repr::Ext, Doc::Map(m)) => named(&m.first()?.0),
        (Repr::Int { tag, default } | Repr::Adj { tag, default, .. }, Doc::Map(m)) => match entry(m, tag) {
            Some(t) => named(&t),
            None => TAGS.iter().position(|t| Some(*t) == default),
        },
        (Repr::Adj { .. }, Doc::Seq(q)) => named(q.first()?),
        _ => None,
    }
}

pub fn c24(t: &Tier) -> Acc {
    let mut acc = once_ser(t);
    acc.merge(once_de(t));
    acc
}

fn only(i: usize) -> [u32; 9] {
    let mut a = [0; 9];
    a[i] = 1;
    a
}

fn once_ser(t: &Tier) -> Acc {
    let mut jobs = gen::shapes(if t.thorough { 2 } else { 1 });
    jobs.push(TV { s: &Shape::U8, v: vec![Val::Fail("inner".into()), Val::Panic, Val::Seq(vec![Val::U8(1), Val::Panic], true), Val::Struct("St", vec![("a", Val::U8(1)), ("b", Val::Panic)])] });
    par(&jobs, |tv, acc| {
        warm();
        for (vi, v) in tv.v.iter().enumerate() {
            for human in [true, false] {
                // the value alone: how often each of its parts is asked
                let (_, _, alone) = metered(|| rec(v, human, 0, acc).is_ok());
                for c in CFGS.iter() {
                    let ty = (vi + acc.job) % TAGS.len();
                    let case = |k: usize| format!("{c:?} type={} human={human} value={v:?} the format fails at call {k}", TAGS[ty]);
                    // the length of the run
                    let calls = match rec(&Tagged(*c, ty, v), human, 0, acc) {
                        Ok(r) => r.calls,
                        Err(_) => 0,
                    };
                    for k in 0..=calls.min(if t.thorough { 64 } else { 24 }) {
                        acc.state(&(c, ty, human, k, format!("{v:?}")));
                        let (r, l, took) = metered(|| rec(&Tagged(*c, ty, v), human, k, acc));
                        let good = matches!(&r, Ok(r) if r.r.is_ok());
                        drop(r);
                        cfg::settle();
                        let held = meter::took_since(l).held;
                        if held != 0 {
                            acc.viol("C24/held", case(k), format!("{held} bytes are still held"));
                        }
                        // an envelope that cannot be begun asks nobody
                        if took.ser != only(ty) && !(k != 0 && took.ser == [0; 9]) {
                            acc.viol("C24/once", case(k), format!("the types are asked {:?} times", took.ser));
                        }
                        let n = took.nodes.0;
                        if (good && n != alone.nodes.0 && !tag_field(*c, v)) || n > alone.nodes.0 + u64::from(tag_field(*c, v)) {
                            acc.viol("C24/once", case(k), format!("{n} parts are written, {} by the value alone", alone.nodes.0));
                        }
                        if took.de != [0; 9] {
                            acc.viol("C24/once", case(k), "a type is decoded".into());
                        }
                        acc.sample(|| format!("{} => {took:?}", case(k)));
                    }
                }
            }
        }
    })
}

fn once_de(t: &Tier) -> Acc {
    let contents = contents();
    let mut jobs = gen::shapes(1);
    jobs.push(TV { s: leak(Shape::Seq(&Shape::Panic)), v: vec![Val::Seq(vec![Val::U8(1)], true)] });
    jobs.push(TV { s: &Shape::Panic, v: vec![Val::Unit] });
    jobs.push(TV { s: leak(Shape::Struct(st("St", &[("a", &Shape::Str), ("b", &Shape::Panic)], false))), v: vec![Val::Struct("St", vec![("a", Val::Str("x".into())), ("b", Val::U8(1))])] });
    par(&jobs, |tv, acc| {
        warm();
        let panics = format!("{:?}", tv.s).contains("Panic");
        for (si, style) in STYLES.into_iter().enumerate() {
            for human in [true, false] {
                let own = if t.thorough { own(tv, style, human) } else { plain(tv, style, human) };
                let (step, off) = if t.thorough { (4, acc.job % 4) } else { (8, (acc.job * 5 + si) % 8) };
                for (di, d) in own.iter().chain(contents[si].iter().skip(off).step_by(step)).enumerate() {
                    for (ci, c) in CFGS.iter().filter(|c| !no_default(**c)).enumerate() {
                        let text = TEXTS[(di + ci) % 3];
                        for e in spoiled(*c, d, di + ci) {
                            let mut cx = Cx::new(style, text, human);
                            let mut k = 0;
                            // first undisturbed, then failing at each call
                            loop {
                                cx.fail_at = k;
                                acc.state(&(c, style, text, human, k, format!("{e:?}"), tv.s as *const Shape as usize));
                                let (r, l, took) = metered(|| de_doc(*c, slots(tv.s), &e, &cx, acc));
                                let calls = cx.calls.get();
                                let case = || format!("{c:?} {style:?} {text:?} human={human} shape={:?} the format fails at call {k}, doc={e:?}", tv.s);
                                let good = matches!(r, Ok(Ok(_)));
                                drop(r);
                                cfg::settle();
                                let held = meter::took_since(l).held;
                                if held != 0 {
                                    acc.viol("C24/held", case(), format!("{held} bytes are still held"));
                                }
                                let asked: u32 = took.de.iter().sum();
                                let may = candidate(*c, &e);
                                let fits = match (good, may) {
                                    (true, Some(i)) => took.de == only(i),
                                    (true, None) => false,
                                    (false, Some(i)) => asked == took.de[i] && asked <= 1,
                                    (false, None) => asked == 0,
                                };
                                if !fits {
                                    acc.viol("C24/once", case(), format!("the types are asked {:?} times, the selected one is {may:?}", took.de));
                                }
                                if took.ser != [0; 9] {
                                    acc.viol("C24/once", case(), "a type is written".into());
                                }
                                acc.sample(|| format!("{} => {took:?}", case()));
                                k += 1;
                                if k > calls.min(if t.thorough { 64 } else { 12 }) || (k > 0 && calls < k) {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        // the compact form: each part is read once
        for v in &tv.v {
            if panics {
                continue;
            }
            for c in CFGS.iter().filter(|c| !no_default(**c)) {
                if tag_field(*c, v) || guesses(*c, tv.s, v) {
                    continue;
                }
                let Ok(run) = rec(&Tagged(*c, 0, v), false, 0, acc) else { continue };
                if run.r.is_err() || run.toks.iter().any(|t| matches!(t, Tok::Seq(None) | Tok::Map(None))) {
                    continue;
                }
                let base = crate::tok::record(v, false).unwrap();
                for names in [false, true] {
                    let cx = Cx::compact(Text::Borrowed, false, names);
                    let (alone, _, a) = metered(|| crate::checks::direct_strict(tv.s, &base, &cx).is_ok());
                    if !alone {
                        continue;
                    }
                    let (r, l, took) = metered(|| de_strict(*c, slots(tv.s), &run.toks, &cx, acc));
                    let case = || format!("{c:?} shape={:?} compact names={names} {:?}", tv.s, run.toks);
                    let good = matches!(r, Ok(Ok(_)));
                    drop(r);
                    cfg::settle();
                    let held = meter::took_since(l).held;
                    if !good || held != 0 || took.de != only(0) || took.nodes.1 != a.nodes.1 {
                        acc.viol("C24/once", case(), format!("read: {good}, {took:?}, alone {a:?}, {held} bytes still held"));
                    }
                }
            }
        }
    })
}

/// The envelopes of a content, and those with something wrong about them.
fn spoiled(c: Cfg, d: &Doc, i: usize) -> Vec<Doc> {
    let mut out = envelopes(c, d);
    let Some(e) = out.get(i % out.len().max(1)).cloned() else { return out };
    if let Doc::Map(m) = &e {
        let mut twice = m.clone();
        twice.extend(m.iter().cloned());
        out.push(Doc::Map(twice));
        for i in 0..m.len() {
            let mut less = m.clone();
            less.remove(i);
            out.push(Doc::Map(less));
        }
        let mut more = m.clone();
        more.push((s("zz"), d.clone()));
        out.push(Doc::Map(more));
        for name in ["Beta", "Alph", "Nope", "alpha"] {
            let mut m = m.clone();
            for x in &mut m {
                if x.1 == s("Alpha") {
                    x.1 = s(name);
                } else if x.0 == s("Alpha") {
                    x.0 = s(name);
                }
            }
            out.push(Doc::Map(m));
        }
    }
    out
}
