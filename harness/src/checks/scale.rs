//! C28: sizes and depths.
//!
//! The reference side of a case (trees, the model) runs on a thread with a very large stack; what
//! the library does runs on a thread with the usual one, so recursion per node is found out.

use super::ops::{el, mark, name, only, tail, text};
use super::*;
use crate::gen::{DocCfg, ProgCfg};
use crate::refparse;
use html5_fuser::template::InputError;
use html5_fuser::ParseOptions;
use std::rc::Rc;
use std::thread;

struct Moved<T>(T);
// Only used where the other thread is joined at once, so nothing is ever accessed by two threads.
unsafe impl<T> Send for Moved<T> {}
impl<T> Moved<T> {
    fn get(self) -> T { self.0 }
}

fn joined<T>(r: thread::Result<Result<T, Stop>>) -> Result<T, Stop> {
    r.unwrap_or_else(|_| Err(Stop::Harness("a thread of the harness panicked".into())))
}

/// Panics of the harness and of the library are told apart where they happen.
fn caught<T>(f: impl FnOnce() -> Result<T, Stop>) -> Result<T, Stop> {
    catch(f).unwrap_or_else(|(msg, loc)| {
        Err(if is_harness_location(&loc) {
            Stop::Harness(format!("harness panicked at {}: {}", loc, msg))
        } else {
            Stop::Fail(format!("the library panicked at {}: {}", loc, msg))
        })
    })
}

/// Run with room for recursion over any generated document.
fn roomy<T>(f: impl FnOnce() -> Result<T, Stop>) -> Result<T, Stop> {
    let f = Moved(f);
    thread::scope(|s| {
        joined(
            thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, move || {
                    model::set_limit(3_000_000);
                    Moved(caught(f.get()))
                })
                .expect("spawn")
                .join()
                .map(Moved::get),
        )
    })
}

/// Run on an ordinary thread.
fn ordinary<T>(f: impl FnOnce() -> Result<T, Stop>) -> Result<T, Stop> {
    let f = Moved(f);
    thread::scope(|s| {
        joined(
            thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || Moved(caught(f.get())))
                .expect("spawn")
                .join()
                .map(Moved::get),
        )
    })
}

/// A size of several orders of magnitude.
fn dimension(src: &mut Src, thorough: bool) -> usize {
    const USUAL: &[usize] = &[
        70_000, 100_000, 65_535, 65_536, 65_537, 32_767, 32_768, 32_769, 10_000, 1_000, 255, 256, 257, 131_072,
        150_000, 20_000, 40_000, 5_000, 4_096, 300,
    ];
    const MORE: &[usize] = &[200_000, 262_144, 300_000, 400_000];
    if src.chance(1, if thorough { 4 } else { 12 }) {
        *src.pick(MORE)
    } else if src.chance(1, 4) {
        src.range(1, 80_000)
    } else {
        *src.pick(USUAL)
    }
}

fn leaf(tag: &str, attrs: &[(&str, Option<&str>)], kind: Kind) -> Node {
    Node::Elem(Elem {
        tag: tag.into(),
        close: if kind == Kind::Open { tag.into() } else { String::new() },
        attrs: attrs.iter().map(|(n, v)| (n.to_string(), v.map(|v| v.to_string()))).collect(),
        kind,
        kids: vec![],
    })
}

/// Something small that may hide at the far end.
fn core(src: &mut Src) -> Forest {
    match src.below(5) {
        0 => vec![],
        1 => vec![el("z", vec![Node::Text("t".into())])],
        2 => vec![leaf("br", &[("id", Some("x"))], Kind::Void)],
        3 => vec![el("z", vec![el("z", vec![])]), leaf("z", &[], Kind::SelfClosed)],
        _ => gen::forest(src, &DocCfg { spike: 0, ..DocCfg::tiny() }),
    }
}

fn chain(src: &mut Src, n: usize, inner: Forest) -> Forest {
    let (a, b) = match src.below(3) {
        0 => ("a", "a"),
        1 => ("a", "b"),
        _ => (gen::tag(src, 4), gen::tag(src, 4)),
    };
    let every = match src.below(4) {
        0 => n / 2 + 1,
        1 => n,
        2 => 1000,
        _ => 3,
    };
    let around = src.below(4);
    let mut f = inner;
    for i in 0..n {
        let attrs: &[(&str, Option<&str>)] =
            if (i + 1) % every == 0 { &[("id", Some("x")), ("class", Some("x y"))] } else { &[] };
        let mut e = leaf(if i % 2 == 0 { a } else { b }, attrs, Kind::Open);
        if let Node::Elem(ref mut e) = e {
            e.kids = f;
        }
        f = match around {
            0 if i % 7 == 0 => vec![Node::Text("t".into()), e],
            1 if i % 50 == 0 => vec![e, leaf("br", &[], Kind::Void), Node::Text("u".into())],
            _ => vec![e],
        };
    }
    f
}

fn siblings(src: &mut Src, n: usize) -> Forest {
    let mut units: Vec<Forest> = Vec::new();
    for _ in 0..src.range(1, 3) {
        units.push(match src.below(9) {
            0 => vec![el("a", vec![])],
            1 => vec![leaf("br", &[], Kind::Void)],
            2 => vec![leaf("a", &[("class", Some("x"))], Kind::SelfClosed)],
            3 => vec![Node::Comment("c".into())],
            4 => vec![Node::Text("t".into()), el("b", vec![])],
            5 => vec![el("script", vec![Node::Raw("x".into())])],
            6 => vec![el("a", vec![el("b", vec![Node::Text("t".into())])])],
            7 => vec![leaf("b", &[("id", Some("x")), ("k", None)], Kind::Open)],
            _ => {
                let f = gen::nodes_no_text(src, &DocCfg { spike: 0, cap: 20, ..DocCfg::tiny() });
                if f.is_empty() { vec![el("a", vec![])] } else { f }
            }
        });
    }
    let mut f = Vec::with_capacity(n);
    let mut i = 0;
    while f.len() < n {
        f.extend(units[i % units.len()].iter().cloned());
        i += 1;
    }
    f
}

fn long_text(src: &mut Src, n: usize, bits: &[&str]) -> String {
    let bit = *src.pick(bits);
    let mut t = String::with_capacity(n + 8);
    while t.len() < n {
        t.push_str(bit);
    }
    t
}

/// One dimension (sometimes two) is large.
fn big_forest(src: &mut Src, n: usize) -> (&'static str, Forest) {
    let wrap = |f: Forest| vec![el("a", f)];
    match src.below(12) {
        0 | 1 => {
            let c = core(src);
            ("deep nesting", chain(src, n, c))
        }
        2 => ("many siblings", siblings(src, n)),
        3 => ("many children", wrap(siblings(src, n))),
        4 => {
            let kind = src.below(5);
            let many: Attrs2 = (0..n)
                .map(|i| match kind {
                    0 => (format!("k{}", i), Some("v".to_string())),
                    1 => ("k".to_string(), Some(i.to_string())),
                    2 => ("id".to_string(), Some(format!("i{}", i))),
                    3 => ("class".to_string(), Some(format!("c{}", i))),
                    _ => (format!("k{}", i), None),
                })
                .collect();
            let mut e = leaf(*src.pick(&["a", "br"]), &[], Kind::Open);
            if let Node::Elem(ref mut e) = e {
                if e.tag == "br" {
                    e.kind = Kind::Void;
                    e.close = String::new();
                }
                e.attrs = many;
                e.attrs.push(("id".into(), Some("x".into())));
                e.attrs.push(("class".into(), Some("x".into())));
            }
            ("many attributes", vec![e, el("b", vec![])])
        }
        5 => {
            let sep = *src.pick(&[" ", "\n", "  "]);
            let names: Vec<String> = (0..n).map(|i| if i % 1000 == 999 { "x".to_string() } else { format!("c{}", i) }).collect();
            let v = names.join(sep);
            ("many class names", vec![leaf("a", &[("class", Some(&v))], Kind::Open), el("b", vec![])])
        }
        6 => {
            let t = long_text(src, n, &["t", "\u{65e5}", "&amp;", "a b\n", "-", "\u{1f600}"]);
            let f = match src.below(5) {
                0 => vec![Node::Text(t), el("a", vec![])],
                1 => vec![el("a", vec![Node::Comment(t.replace('-', "+"))])],
                2 => vec![el("script", vec![Node::Raw(t)]), el("a", vec![])],
                3 => vec![leaf("a", &[("title", Some(&t)), ("id", Some(&t))], Kind::Open)],
                _ => vec![el("a", vec![Node::Text(t)])],
            };
            ("long text", f)
        }
        7 => {
            let t = long_text(src, n, &["t", "a-b", "Aa", "x:"]);
            let f = match src.below(4) {
                0 => vec![el(&t, vec![el("b", vec![])])],
                1 => vec![leaf("a", &[(&t, Some("v"))], Kind::Open)],
                2 => vec![leaf("a", &[("class", Some(&t))], Kind::Open), leaf("b", &[("id", Some(&t))], Kind::Open)],
                _ => vec![leaf(&t, &[], Kind::SelfClosed), el("a", vec![])],
            };
            ("long names", f)
        }
        8 => {
            let s = siblings(src, n / 2);
            let mut f = chain(src, n / 2, s);
            f.push(el("a", vec![]));
            ("deep and wide", f)
        }
        9 => {
            let units = 1 + n / 2000;
            let c = core(src);
            let one = chain(src, n / units, c);
            let mut f = Vec::new();
            for _ in 0..units {
                f.extend(one.iter().cloned());
            }
            ("several deep ones", f)
        }
        10 => {
            // a random small document many times, wrapped up now and then
            let unit = gen::nodes_no_text(src, &DocCfg { spike: 0, ..DocCfg::small() });
            let size = unit.len().max(1) * 4;
            let mut f: Forest = vec![];
            for i in 0..n / size {
                f.extend(unit.iter().cloned());
                if i % 300 == 299 {
                    f = wrap(f);
                }
            }
            ("repeated pieces", f)
        }
        _ => {
            let c = core(src);
            ("small", c)
        }
    }
}
type Attrs2 = Vec<(String, Option<String>)>;

fn big_sel(src: &mut Src) -> Sel {
    match src.below(4) {
        0 => gen::tag_sel("z"),
        1 => gen::tag_sel("a"),
        _ => gen::sel(src, 4),
    }
}

fn items_of(n: usize, src: &mut Src) -> Items {
    let by = *src.pick(&[IterBy::Vec, IterBy::Range, IterBy::Unfused, IterBy::Filter, IterBy::Chain]);
    Items { values: (0..n as i64).collect(), by }
}

fn select_op(src: &mut Src, ops: Vec<EOp>, t: ETail) -> SOp {
    SOp::Select {
        scope: if src.chance(1, 3) { Scope::Direct } else { Scope::Any },
        once: src.chance(1, 3),
        sel: big_sel(src),
        body: Rc::new(EProg { ops, tail: t, rest: vec![] }),
    }
}

fn big_content(src: &mut Src, n: usize) -> Content {
    if src.chance(1, 3) {
        let (_, f) = big_forest(src, n);
        let s = model::render(&f);
        let by = match src.below(4) {
            0 => TmplBy::Ref,
            1 => TmplBy::Owned,
            2 => TmplBy::Rc,
            _ => TmplBy::RcCell,
        };
        Content::Tmpl(Rc::new((s, f)), by)
    } else {
        text("x<")
    }
}

fn big_text(src: &mut Src, n: usize) -> TextSrc {
    let t = if src.chance(1, 3) { long_text(src, n, &["v", "&", "\u{65e5}", "<b> "]) } else { "v".to_string() };
    match src.below(3) {
        0 => TextSrc::OwnedValue(t),
        1 => TextSrc::RefData(t),
        _ => TextSrc::OwnedData(t),
    }
}

/// Programs whose work is proportional to the document.
fn big_prog(src: &mut Src, n: usize, large_doc: bool) -> SProg {
    let few = |src: &mut Src| items_of(src.range(0, 3), src);
    let many = |src: &mut Src| items_of(if large_doc { src.range(0, 3) } else { n.min(150_000) }, src);
    let marked = || Rc::new(only(vec![mark()]));
    let first = match src.below(26) {
        0 => select_op(src, vec![mark()], ETail::None),
        1 | 2 => select_op(src, vec![], ETail::Stream(SOp::Remove)),
        3 => {
            let c = big_content(src, if large_doc { 10 } else { n });
            select_op(src, vec![], ETail::Stream(SOp::Replace(c)))
        }
        4 => {
            let inner = big_sel(src);
            let (scope, once) = (if src.chance(1, 2) { Scope::Direct } else { Scope::Any }, src.chance(1, 2));
            let body = if src.chance(1, 2) { marked() } else { Rc::new(tail(ETail::Stream(SOp::Remove))) };
            select_op(src, vec![EOp::SubSelect { scope, once, sel: inner, body }], ETail::None)
        }
        5 => {
            let p = Rc::new(vec![SOp::Append(text("s")), select_op(src, vec![mark()], ETail::None), SOp::Prepend(text("p"))]);
            select_op(src, vec![EOp::SubSelectContents(p)], ETail::None)
        }
        6 => {
            let it = few(src);
            select_op(src, vec![], ETail::Repeat(it, marked()))
        }
        7 => {
            let it = many(src);
            SOp::Repeat(it, Rc::new(vec![SOp::Append(Content::Text(TextSrc::Env(0)))]))
        }
        8 => {
            let it = many(src);
            let p = Rc::new(vec![select_op(src, vec![mark()], ETail::None)]);
            SOp::Repeat(it, p)
        }
        9 => {
            let it = many(src);
            select_op(src, vec![EOp::RepeatContents(it, Rc::new(vec![SOp::Prepend(Content::Text(TextSrc::Env(0)))]))], ETail::None)
        }
        10 => {
            let it = many(src);
            let p = if src.chance(1, 2) { vec![SOp::Remove] } else { vec![] };
            SOp::RepeatOrElse(it, Rc::new(p), Rc::new(vec![SOp::Append(text("e"))]))
        }
        11 => {
            let p = Rc::new(vec![select_op(src, vec![mark()], ETail::None)]);
            SOp::ApplyTemplate(p)
        }
        12 => select_op(src, vec![mark()], ETail::Stream(SOp::ApplyTemplate(Rc::new(vec![SOp::Append(text("s"))])))),
        13 => SOp::Append(big_content(src, n)),
        14 => SOp::Prepend(big_content(src, n)),
        15 => SOp::Replace(big_content(src, n)),
        16 => {
            let ops = match src.below(4) {
                0 => vec![EOp::RemoveContents],
                1 => vec![EOp::AppendContents(big_content(src, if large_doc { 10 } else { n }))],
                2 => vec![EOp::PrependContents(text("p")), EOp::AppendContents(text("s"))],
                _ => vec![EOp::ReplaceContents(text("r")), mark()],
            };
            select_op(src, ops, ETail::None)
        }
        17 => {
            let v = big_text(src, if large_doc { 10 } else { n });
            let ops = match src.below(5) {
                0 => vec![EOp::AddAttrValue(name("k"), v)],
                1 => vec![EOp::SetAttrValue(name("class"), v)],
                2 => vec![EOp::AddTo(name("id"), v, TextSrc::Static(" "))],
                3 => vec![EOp::ReplaceIfExists(name("k"), v)],
                _ => vec![EOp::RemoveAttr(name("k")), EOp::AddClass(name("x"))],
            };
            select_op(src, ops, ETail::None)
        }
        18 => {
            let ops = match src.below(4) {
                0 => vec![EOp::AddClass(name("q")), EOp::RemoveClass(name("x"))],
                1 => vec![EOp::RemoveClass(name("c7"))],
                2 => vec![EOp::SetId(name("q"))],
                _ => vec![EOp::RemoveId, EOp::RemoveAttr(name("class"))],
            };
            select_op(src, ops, ETail::None)
        }
        19 => {
            // a selector of very many parts
            let k = (n / 20).clamp(1, 3000);
            let classes: Vec<&'static str> = (0..k).map(|i| gen::intern(&format!("c{}", i))).collect();
            let by = *src.pick(&[SelBy::Static, SelBy::Typed, SelBy::TypedRc]);
            let t = gen::intern(&gen::sel_text(Some("a"), None, &classes));
            let tag = Some("a");
            SOp::Select { scope: Scope::Any, once: false, sel: Sel { tag, id: None, classes, by, text: t, bad: false }, body: marked() }
        }
        20 => {
            // repetitions inside of repetitions
            let k = if large_doc { 2 } else { (n as f64).sqrt() as usize };
            let (a, b) = (items_of(k.min(300), src), items_of(k.min(300), src));
            SOp::Repeat(a, Rc::new(vec![SOp::Repeat(b, Rc::new(vec![SOp::Append(Content::Text(TextSrc::Env(1)))]))]))
        }
        21 => {
            // a tag, id or class of a very long name
            let t = long_text(src, n, &["t", "a-b", "Aa"]);
            let t = gen::intern(&t);
            SOp::Select { scope: Scope::Any, once: false, sel: gen::tag_sel(t), body: marked() }
        }
        22 => {
            let it = few(src);
            let p = Rc::new(vec![select_op(src, vec![], ETail::Stream(SOp::Remove))]);
            select_op(src, vec![EOp::RepeatContents(it, p)], ETail::None)
        }
        _ => {
            let cfg = ProgCfg { depth: 2, s_ops: 1, e_ops: 1, max_items: 3, ..ProgCfg::default() };
            return gen::sprog(src, &cfg);
        }
    };
    let mut p = vec![first];
    if src.chance(1, 3) {
        p.push(select_op(src, vec![mark()], ETail::None));
    }
    if src.chance(1, 6) {
        p.insert(0, SOp::IntoBoxed);
    }
    p
}

fn c28_transform(ctx: &mut Ctx) -> Res {
    roomy(|| {
        let n = dimension(&mut ctx.src, ctx.thorough);
        let (shape, f) = big_forest(&mut ctx.src, n);
        gen::see(&f);
        let large_doc = shape != "small";
        let s = if ctx.src.chance(1, 4) && n < 60_000 { gen::source(&mut ctx.src, &f) } else { model::render(&f) };
        let p = big_prog(&mut ctx.src, n, large_doc);
        ctx.classify(shape);
        ctx.classify_if(n >= 65_535, "65535 or more");
        let about = format!("a document with {} ({}), {:?}\n  by {}", shape, n, short(&s), short(&format!("{:?}", p)));
        ctx.note(|| about.clone());
        model::take_calls();
        let want = model::run_s(f.clone(), &p, &interp::root_env());
        let want_calls = model::take_calls();
        if want == Err(MErr::TooLarge) {
            return Err(Stop::Excluded("the result is too large for the harness"));
        }
        let same = model::render(&f);
        let want = want.map(|f| {
            let t = model::render(&f);
            (t, f)
        });
        if let Ok((t, _)) = &want {
            if t.len() > 40_000_000 {
                return Err(Stop::Excluded("the result is too large for the harness"));
            }
        }
        ctx.input(&s);
        ctx.input(&format!("{:?}", p));
        ctx.nontrivial(n >= 1000);
        let (calls, out) = ordinary(|| {
            let t = must_parse(&s)?;
            same_text(&format!("the rendering of {}", about), &t.to_string(), &same)?;
            let copy = t.clone();
            ensure!(copy == t, "a copy of {} is not equal to it", about);
            drop(t);
            model::take_calls();
            let out = interp::transform(&copy, &p);
            let calls = model::take_calls();
            drop(copy);
            let out = match out {
                Ok(out) => {
                    let text = out.to_string();
                    let back = interp::parse(&text);
                    drop(back);
                    drop(out);
                    Ok(text)
                }
                Err(e) => Err((interp::stream_err(&e), format!("{} {:?}", e, e))),
            };
            Ok((calls, out))
        })?;
        match (out, want) {
            (Ok(got), Ok((want, _))) => {
                same_text(&format!("the result of transforming {}", about), &got, &want)?;
                ctx.classify_if(got != same, "output differs from the input");
                if want_calls.len() < model::MAX_CALLS {
                    ensure!(
                        calls == want_calls,
                        "transforming {}: {} builder calls, expected {}; first ones\n   got {:?}\n  want {:?}",
                        about,
                        calls.len(),
                        want_calls.len(),
                        &calls[..calls.len().min(10)],
                        &want_calls[..want_calls.len().min(10)]
                    );
                }
                ctx.classify_if(calls.len() >= 65_535, "65535 or more builder calls");
                Ok(())
            }
            (Err((kind, _)), Err(m)) if kind == interp::MErr2::M(m.clone()) => Ok(()),
            (got, want) => fail(format!(
                "transforming {} gives {}, expected {}",
                about,
                short(&format!("{:?}", got)),
                short(&format!("{:?}", want.map(|w| w.0)))
            )),
        }
    })
}

/// Errors in large texts: what is missing, where, and which limits are exceeded.
fn c28_errors(ctx: &mut Ctx) -> Res {
    roomy(|| {
        let n = dimension(&mut ctx.src, ctx.thorough);
        let src = &mut ctx.src;
        let (kind, s, depth): (&'static str, String, Option<usize>) = match src.below(6) {
            0 => ("unclosed elements", "<a>\n".repeat(n), None),
            1 => {
                let closed = src.below(n + 1);
                let mut s = String::new();
                for i in 0..n {
                    s.push_str(if i % 3 == 0 { "<b>" } else { "<a>" });
                }
                for i in (n - closed..n).rev() {
                    s.push_str(if i % 3 == 0 { "</b>" } else { "</a>" });
                }
                ("partly closed elements", s, None)
            }
            2 => {
                let (_, f) = big_forest(src, n);
                let d = model::depth(&f);
                let limit = (d + 1).saturating_sub(src.below(3));
                ("stack limit", model::render(&f), Some(limit))
            }
            3 => {
                let (_, f) = big_forest(src, n);
                let mut s = model::render(&f);
                s.push_str(&super::parsing::defect(src));
                ("defect at the end", s, None)
            }
            4 => {
                let (_, f) = big_forest(src, n);
                let s = model::render(&f);
                let mut at = src.below(s.len() + 1);
                while !s.is_char_boundary(at) {
                    at -= 1;
                }
                ("cut off", s[..at].to_string(), None)
            }
            _ => {
                let t = long_text(src, n, &["x", "\u{65e5}", "-", " ", "a b\n"]);
                let form = *src.pick(&["<!--{}", "<a b=\"{}", "<!doctype {}", "<!doctype {}>", "<{}", "</{}>", "<a {}", "<script>{}", "<a b={}>"]);
                ("long unfinished part", form.replacen("{}", &t, 1), None)
            }
        };
        ctx.classify(kind);
        ctx.input(&s);
        ctx.input(&depth);
        ctx.note(|| format!("{} ({}): {:?} with stack limit {:?}", kind, n, short(&s), depth));
        ctx.nontrivial(n >= 1000);
        let want = refparse::parse(&s, depth);
        ordinary(|| {
            let o = ParseOptions { max_stack_depth: depth, ..ParseOptions::default() };
            match (Template::from_str(&s, o), &want) {
                (Ok(t), Ok(evs)) => same_text(&format!("{:?}", short(&s)), &t.to_string(), &refparse::render(evs)),
                (Err(e), Err(want)) => {
                    let shown = e.to_string();
                    ensure!(!shown.is_empty(), "{:?}: an error without a message", short(&s));
                    if let InputError::Parse { ref error } = e {
                        let got = refparse::perr(error);
                        ensure!(
                            got == *want,
                            "{:?} with stack limit {:?} gives {}, expected {}",
                            short(&s),
                            depth,
                            short(&format!("{:?}", got)),
                            short(&format!("{:?}", want))
                        );
                        Ok(())
                    } else {
                        fail(format!("{:?} gives {}", short(&s), short(&format!("{:?}", e))))
                    }
                }
                (a, b) => fail(format!(
                    "{:?} with stack limit {:?} gives {}, expected {}",
                    short(&s),
                    depth,
                    short(&format!("{:?}", a.map(|t| t.to_string()))),
                    short(&format!("{:?}", b.as_ref().map(|_| ())))
                )),
            }
        })
    })
}

/// Single pieces of many megabytes, with results in closed form.
fn c28_very_long(ctx: &mut Ctx) -> Res {
    let n = [(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 3, 20_000_000, 70_000_000][(ctx.index + ctx.index / 8) as usize % 6];
    let kind = ctx.index % 8;
    let unit = *ctx.src.pick(&["x", "ab", "\u{e9}", "\n", "- "]);
    let fill = unit.repeat((n - 1) / unit.len());
    // the piece has exactly n bytes, and something to be found at its end
    let piece = format!("{}{}y", fill, ".".repeat(n - fill.len() - 1));
    let (what, source, op): (&'static str, String, u32) = match kind {
        0 => ("text", format!("<a>{}</a><b></b>", piece), 0),
        1 => ("comment", format!("<a><!--{}--></a><b></b>", piece), 0),
        2 => ("raw text", format!("<script>{}</script><b></b>", piece), 0),
        3 => ("value", format!("<a b=\"{}\"></a><b></b>", piece), 0),
        4 => ("classes", format!("<a class=\"{} k\"></a><b></b>", piece), 1),
        5 => ("inserted text", "<a></a><b></b>".into(), 2),
        6 => ("inserted value", "<a></a><b></b>".into(), 3),
        _ => ("joined class", format!("<a class=\"{}\"></a><b></b>", piece), 4),
    };
    ctx.classify(what);
    ctx.input(&(n, kind, unit));
    ctx.note(|| format!("{} of {} bytes, made of {:?}", what, n, unit));
    ctx.nontrivial(true);
    let want = match op {
        0 | 1 => source.replace("<b></b>", "<b>z</b>"),
        2 => format!("<a>{}</a><b>z</b>", piece),
        3 => format!("<a c=\"{}\"></a><b>z</b>", piece),
        _ => format!("<a class=\"{} k\"></a><b>z</b>", piece),
    };
    let want = if op == 1 { want.replace("</a>", "found</a>") } else { want };
    ordinary(|| {
        let t = match Template::from_str(&source, ParseOptions::default()) {
            Ok(t) => t,
            Err(e) => return fail(format!("{} of {} bytes is rejected: {}", what, n, short(&e.to_string()))),
        };
        same_text(what, &t.to_string(), &source)?;
        let data = html5_fuser::text::Data::from_unencoded_str(if op == 2 { &piece } else { "" });
        let value = html5_fuser::text::Value::from_unencoded_str(if op == 3 { &piece } else { "" });
        let r = t.transform(move |html| {
            let html = html.select("b", |html| html.append_contents("z"));
            match op {
                1 => html.select(".k", |html| html.append_contents("found")).into_boxed(),
                2 => html.select("a", move |html| html.append_contents(data.clone())).into_boxed(),
                3 => html.select("a", move |html| html.set_attribute("c", Some(value.clone()))).into_boxed(),
                4 => html.select("a", |html| html.add_class("k")).into_boxed(),
                _ => html.into_boxed(),
            }
        });
        match r {
            Ok(r) => {
                same_text(what, &r.to_string(), &want)?;
                ensure!(r == r.clone(), "{} of {} bytes: a template differs from its copy", what, n);
                ensure!((r == t) == (want == source), "{} of {} bytes: wrong equality", what, n);
                Ok(())
            }
            Err(e) => fail(format!("{} of {} bytes: the transform fails: {}", what, n, short(&e.to_string()))),
        }
    })
}

/// F3: pages of zeros, which need no memory of their own.
fn four_gib_fails() -> bool {
    let mut v: Vec<u8> = Vec::new();
    let n = (1usize << 32) + 1;
    if v.try_reserve_exact(n).is_err() {
        return false;
    }
    drop(v);
    let s = String::from_utf8(vec![0u8; n]).expect("zeros");
    Template::from_str(&s, ParseOptions::default()).is_err()
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C28",
        level: "exploration",
        rule: "documents with one or two dimensions (depth, siblings, attributes, class names, lengths of texts, values, comments and names) of up to 400000, repetitions of up to 150000 items, with programs of selections, removals, insertions, repetitions and rebuilt templates; parsed, rendered, compared, copied, transformed and dropped on a thread with a 2 MB stack, and compared with the tree model, which runs on a stack of its own; also errors and limits in such texts, compared with the reference parser. Single pieces of up to 70 MB have results in closed form. Non-trivial: the dimension is at least 1000",
        parts: vec![
            part("large documents", 420, 4_000, c28_transform),
            part("errors in large texts", 100, 1_500, c28_errors),
            part("very long pieces", 8, 48, c28_very_long),
        ],
        assumptions: &["documents with more than 400000 pieces in a dimension, or single pieces longer than 70 MB (except for the known finding F3), are not tried"],
        findings: vec![(
            "F3",
            "a single text, comment or value of 4 GiB or more panics (assertion failed: x.len() <= buf32::MAX_LEN in tendril)",
            four_gib_fails,
        )],
        exhaustive_parts: &[],
    }]
}
