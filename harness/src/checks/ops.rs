//! C11 - C20, C22, C23, C26: what the operations mean.

use super::*;
use crate::gen::{e, s, t, tag_sel, DocCfg, ProgCfg};
use crate::refparse::{self, check_ident, Ev};
use html5_fuser::event::{IntoStream, Stream};
use html5_fuser::{ParseOptions, Template};
use std::rc::Rc;

// ---------------------------------------------------------------- small documents

const TOKENS: usize = 7;

/// All sequences of `len` tokens; `None` if it closes something that is not open.
pub(super) fn small_forest(mut index: u64, len: u32) -> Option<Forest> {
    let mut evs: Vec<Ev> = Vec::new();
    let mut open: Vec<&str> = Vec::new();
    for _ in 0..len {
        match index % TOKENS as u64 {
            0 => {
                evs.push(Ev::Open("a".into(), vec![]));
                open.push("a");
            }
            1 => {
                evs.push(Ev::Open("b".into(), vec![]));
                open.push("b");
            }
            2 => evs.push(Ev::Close(open.pop()?.into())),
            3 => {
                if matches!(evs.last(), Some(Ev::Text(_))) {
                    return None;
                }
                evs.push(Ev::Text("t".into()));
            }
            4 => evs.push(Ev::Void("br".into(), vec![])),
            5 => evs.push(Ev::SelfClosed("a".into(), vec![])),
            _ => evs.push(Ev::Comment("c".into())),
        }
        index /= TOKENS as u64;
    }
    while let Some(t) = open.pop() {
        evs.push(Ev::Close(t.into()));
    }
    Some(model::tree(&evs))
}

pub(super) const fn forests(len: u32) -> u64 { (TOKENS as u64).pow(len) }

pub(super) fn tmpl(f: Forest) -> Content { Content::Tmpl(Rc::new((model::render(&f), f)), TmplBy::Ref) }
pub(super) fn el(tag: &str, kids: Forest) -> Node {
    Node::Elem(Elem { tag: tag.into(), close: tag.into(), attrs: vec![], kind: Kind::Open, kids })
}
pub(super) fn text(s: &'static str) -> Content { Content::Text(TextSrc::Static(s)) }
pub(super) fn two() -> Items { Items { values: vec![3, 4], by: IterBy::Unfused } }
pub(super) fn none() -> Items { Items { values: vec![], by: IterBy::Vec } }
pub(super) fn name(s: &'static str) -> Name { Name(s, NameBy::Static) }
pub(super) fn mark() -> EOp { EOp::AddAttrValue(name("m"), TextSrc::Env(0)) }

pub(super) fn only(ops: Vec<EOp>) -> EProg { EProg { ops, tail: ETail::None, rest: vec![] } }
pub(super) fn tail(tail: ETail) -> EProg { EProg { ops: vec![mark()], tail, rest: vec![] } }

pub(super) const BODIES: usize = 16;
/// Builders for selected elements.
pub(super) fn body(n: usize) -> EProg {
    match n {
        0 => only(vec![mark()]),
        1 => tail(ETail::Stream(SOp::Remove)),
        2 => tail(ETail::Stream(SOp::Replace(text("R")))),
        3 => tail(ETail::Repeat(two(), Rc::new(only(vec![mark()])))),
        4 => tail(ETail::Stream(SOp::Replace(tmpl(vec![el("a", vec![el("a", vec![])]), el("b", vec![])])))),
        5 => EProg { ops: vec![mark()], tail: ETail::Stream(SOp::Prepend(text("P"))), rest: vec![SOp::Append(text("S"))] },
        6 => only(vec![EOp::SubSelect { scope: Scope::Any, once: false, sel: tag_sel("a"), body: Rc::new(only(vec![mark()])) }]),
        7 => EProg {
            ops: vec![],
            tail: ETail::Stream(SOp::Select { scope: Scope::Any, once: false, sel: tag_sel("b"), body: Rc::new(only(vec![mark()])) }),
            rest: vec![],
        },
        8 => only(vec![EOp::RemoveContents]),
        9 => only(vec![EOp::AppendContents(tmpl(vec![el("a", vec![])]))]),
        10 => only(vec![EOp::PrependContents(text("p")), mark()]),
        11 => only(vec![EOp::ReplaceContents(tmpl(vec![el("a", vec![]), el("b", vec![])]))]),
        12 => only(vec![EOp::RepeatContents(two(), Rc::new(vec![SOp::Append(Content::Text(TextSrc::Env(0)))]))]),
        13 => only(vec![]),
        14 => tail(ETail::RepeatOrElse(none(), Rc::new(only(vec![])), Rc::new(only(vec![mark()])))),
        _ => only(vec![EOp::SubSelectContents(Rc::new(vec![SOp::Prepend(text("p")), SOp::Append(text("s"))]))]),
    }
}

pub(super) fn pick_sel(n: usize) -> Sel {
    match n {
        0 => tag_sel("a"),
        1 => tag_sel("b"),
        _ => tag_sel("br"),
    }
}

pub(super) fn select(scope: Scope, once: bool, sel: Sel, body: EProg) -> SOp { SOp::Select { scope, once, sel, body: Rc::new(body) } }
pub(super) fn subselect(scope: Scope, once: bool, sel: Sel, body: EProg) -> EOp {
    EOp::SubSelect { scope, once, sel, body: Rc::new(body) }
}

fn small(ctx: &mut Ctx, f: Forest, p: SProg) -> Res {
    let s = model::render(&f);
    let d = diff(ctx, &s, &f, &p)?;
    ctx.classify_if(d.calls.len() > 1, "2+ builder calls");
    ctx.nontrivial(d.changed || !d.calls.is_empty());
    Ok(())
}

fn len(ctx: &Ctx) -> u32 { if ctx.thorough { 7 } else { 6 } }
fn split(ctx: &Ctx, programs: u64) -> Option<(Forest, usize)> {
    small_forest(ctx.index / programs, len(ctx)).map(|f| (f, (ctx.index % programs) as usize))
}

fn focused(ctx: &mut Ctx, dcfg: &DocCfg, pcfg: &ProgCfg) -> Result<Diff, Stop> {
    let (s, f) = doc(ctx, dcfg);
    let p = gen::sprog(&mut ctx.src, pcfg);
    let d = diff(ctx, &s, &f, &p)?;
    ctx.classify_if(d.calls.len() > 1, "2+ builder calls");
    ctx.classify_if(d.calls.len() > 20, "20+ builder calls");
    ctx.classify_if(d.changed, "output differs from the input");
    ctx.nontrivial(d.changed || !d.calls.is_empty());
    Ok(d)
}

pub(super) fn vast() -> DocCfg { DocCfg { vast: true, ..DocCfg::small() } }
pub(super) fn large() -> DocCfg { DocCfg { spike: 40, cap: 1200, ..DocCfg::small() } }

// ---------------------------------------------------------------- C11, C12, C13

const C11_PROGRAMS: u64 = (BODIES * 3) as u64;
fn c11_small(ctx: &mut Ctx) -> Res {
    let (f, n) = match split(ctx, C11_PROGRAMS) {
        Some(x) => x,
        None => return Ok(()),
    };
    small(ctx, f, vec![select(Scope::Any, false, pick_sel(n / BODIES), body(n % BODIES))])
}

fn select_cfg() -> ProgCfg {
    ProgCfg::none()
        .with_s(&[(s::SELECT, 20), (s::PREPEND, 1), (s::APPEND, 1), (s::REMOVE, 1), (s::REPLACE, 1), (s::REPEAT, 1)])
        .with_e(&[(e::ADD_ATTR_V, 4), (e::SUBSELECT, 3), (e::REMOVE_C, 1), (e::APPEND_C, 1), (e::REPLACE_C, 1), (e::SUB_CONTENTS, 1)])
        .with_t(&[(t::NONE, 8), (t::STREAM, 4), (t::REPEAT, 2), (t::REPEAT_OR, 1)])
}

/// Rewrites all selections of a program.
fn selections(p: &mut SProg, f: &mut dyn FnMut(&mut Scope, &mut bool)) {
    fn rs(p: &mut Rc<SProg>, f: &mut dyn FnMut(&mut Scope, &mut bool)) { selections(Rc::make_mut(p), f) }
    fn ops(v: &mut Vec<EOp>, f: &mut dyn FnMut(&mut Scope, &mut bool)) {
        for op in v.iter_mut() {
            match op {
                EOp::SubSelect { scope, once, body, .. } => {
                    f(scope, once);
                    re(Rc::make_mut(body), f);
                }
                EOp::SubSelectContents(p) | EOp::RepeatContents(_, p) => rs(p, f),
                EOp::Apply(p) | EOp::ApplyIf(_, p) | EOp::ApplyBoxedElement(p) => ops(Rc::make_mut(p), f),
                EOp::ApplyIfElse(_, p, q) | EOp::ApplyOption(_, p, q) | EOp::ApplyResult(_, p, q) => {
                    ops(Rc::make_mut(p), f);
                    ops(Rc::make_mut(q), f);
                }
                _ => {}
            }
        }
    }
    fn re(p: &mut EProg, f: &mut dyn FnMut(&mut Scope, &mut bool)) {
        ops(&mut p.ops, f);
        match &mut p.tail {
            ETail::None => {}
            ETail::Stream(op) => one(op, f),
            ETail::Repeat(_, p) | ETail::Apply(p) | ETail::ApplyIf(_, p) => re(Rc::make_mut(p), f),
            ETail::RepeatOrElse(_, p, q) => {
                re(Rc::make_mut(p), f);
                re(Rc::make_mut(q), f);
            }
            ETail::RepeatContentsOrElse(_, p, q) => {
                rs(p, f);
                re(Rc::make_mut(q), f);
            }
            ETail::ApplyBoxed(p) => rs(p, f),
        }
        selections(&mut p.rest, f);
    }
    fn one(op: &mut SOp, f: &mut dyn FnMut(&mut Scope, &mut bool)) {
        match op {
            SOp::Select { scope, once, body, .. } => {
                f(scope, once);
                re(Rc::make_mut(body), f);
            }
            SOp::Repeat(_, p) | SOp::Apply(p) | SOp::ApplyIf(_, p) | SOp::ApplyBoxed(p) | SOp::ApplyTemplate(p) => rs(p, f),
            SOp::RepeatOrElse(_, p, q) | SOp::ApplyIfElse(_, p, q) | SOp::ApplyOption(_, p, q) | SOp::ApplyResult(_, p, q) => {
                rs(p, f);
                rs(q, f);
            }
            _ => {}
        }
    }
    for op in p.iter_mut() {
        one(op, f);
    }
}

fn with_selections(ctx: &mut Ctx, dcfg: &DocCfg, scope: Option<Scope>, once: Option<bool>) -> Res {
    let (s, f) = doc(ctx, dcfg);
    let mut p = gen::sprog(&mut ctx.src, &select_cfg());
    selections(&mut p, &mut |sc, o| {
        if let Some(x) = scope {
            *sc = x
        }
        if let Some(x) = once {
            *o = x
        }
    });
    let d = diff(ctx, &s, &f, &p)?;
    ctx.classify_if(d.calls.is_empty(), "nothing selected");
    ctx.classify_if(d.calls.len() > 1, "2+ builder calls");
    ctx.classify_if(d.calls.len() > 20, "20+ builder calls");
    ctx.nontrivial(!d.calls.is_empty());
    Ok(())
}

fn c11_random(ctx: &mut Ctx) -> Res { with_selections(ctx, &DocCfg::small(), Some(Scope::Any), Some(false)) }
fn c11_large(ctx: &mut Ctx) -> Res { with_selections(ctx, &large(), Some(Scope::Any), Some(false)) }

/// The builder is given exactly the matched element, in document order.
fn c11_given(ctx: &mut Ctx) -> Res {
    use std::cell::RefCell;
    let (s, f) = doc(ctx, &DocCfg::small());
    let sel = gen::sel(&mut ctx.src, 5);
    let sel = Sel { by: SelBy::Typed, ..sel };
    ctx.input(&s);
    ctx.input(&sel);
    fn outermost(f: &[Node], sel: &Sel, out: &mut Vec<String>) {
        for n in f {
            if let Node::Elem(e) = n {
                if model::sel_matches(sel, e) {
                    out.push(model::render(&[n.clone()]))
                } else {
                    outermost(&e.kids, sel, out)
                }
            }
        }
    }
    let mut want = vec![];
    outermost(&f, &sel, &mut want);
    let seen = RefCell::new(Vec::new());
    let typed = interp::typed(&sel).map_err(|e| Stop::Harness(format!("{:?}", e)))?;
    let t = must_parse(&s)?;
    let seen2 = Rc::new(seen);
    let seen3 = seen2.clone();
    let out = t
        .transform(move |a| {
            a.select(typed, move |e| {
                let seen = seen3.clone();
                e.apply_as_template(move |t| {
                    seen.borrow_mut().push(t.to_string());
                    t.transform(|a| a)
                })
            })
        })
        .map_err(|e| Stop::Fail(format!("selection failed: {:?}", e)))?;
    let got = seen2.borrow().clone();
    if got != want {
        return fail(format!("selecting {} in {:?} gives the builder {:?}, expected {:?}", sel.text, short(&s), got, want));
    }
    same_text("the template after rebuilding the selected elements", &out.to_string(), &model::render(&f))?;
    ctx.note(|| format!("{} in {:?}: {:?}", sel.text, short(&s), want));
    ctx.nontrivial(!want.is_empty());
    ctx.classify_if(want.len() > 1, "2+ matches");
    Ok(())
}

const C12_PROGRAMS: u64 = 4 * 3 * 6 + 8;
fn c12_small(ctx: &mut Ctx) -> Res {
    let (f, n) = match split(ctx, C12_PROGRAMS) {
        Some(x) => x,
        None => return Ok(()),
    };
    let p = if n < 72 {
        let (kind, rest) = (n / 18, n % 18);
        let (sel, b) = (pick_sel(rest / 6), [0, 1, 3, 4, 5, 6][rest % 6]);
        once_prog(kind, sel, body(b))
    } else {
        match n - 72 {
            // chained: two first matches, one after the other
            0 => vec![select(Scope::Any, true, tag_sel("a"), body(0)), select(Scope::Any, true, tag_sel("a"), body(0))],
            1 => vec![select(Scope::Any, true, tag_sel("a"), body(1)), select(Scope::Any, true, tag_sel("a"), body(1))],
            // once inside of every match
            2 => vec![select(Scope::Any, false, tag_sel("a"), only(vec![subselect(Scope::Any, true, tag_sel("b"), body(0))]))],
            3 => vec![select(Scope::Any, true, tag_sel("a"), only(vec![subselect(Scope::Any, true, tag_sel("a"), body(0))]))],
            // each repetition has its own first match
            4 => vec![SOp::Repeat(two(), Rc::new(vec![select(Scope::Any, true, tag_sel("a"), body(0))]))],
            5 => vec![SOp::Repeat(two(), Rc::new(vec![])), select(Scope::Any, true, tag_sel("b"), body(0))],
            6 => vec![select(
                Scope::Any,
                false,
                tag_sel("b"),
                only(vec![EOp::RepeatContents(two(), Rc::new(vec![select(Scope::Direct, true, tag_sel("a"), body(0))]))]),
            )],
            _ => vec![select(
                Scope::Any,
                true,
                tag_sel("b"),
                tail(ETail::Repeat(two(), Rc::new(only(vec![subselect(Scope::Direct, true, tag_sel("a"), body(1))])))),
            )],
        }
    };
    small(ctx, f, p)
}
fn once_prog(kind: usize, sel: Sel, b: EProg) -> SProg {
    let inside = |op: EOp| vec![select(Scope::Any, false, tag_sel("b"), only(vec![op]))];
    match kind {
        0 => vec![select(Scope::Any, true, sel, b)],
        1 => vec![select(Scope::Direct, true, sel, b)],
        2 => inside(subselect(Scope::Any, true, sel, b)),
        _ => inside(subselect(Scope::Direct, true, sel, b)),
    }
}
fn c12_random(ctx: &mut Ctx) -> Res { with_selections(ctx, &DocCfg::small(), None, Some(true)) }
fn c12_mixed(ctx: &mut Ctx) -> Res { with_selections(ctx, &DocCfg::small(), None, None) }
fn c12_large(ctx: &mut Ctx) -> Res { with_selections(ctx, &large(), None, Some(true)) }

const C13_PROGRAMS: u64 = 3 * 8 + 8;
fn c13_small(ctx: &mut Ctx) -> Res {
    let (f, n) = match split(ctx, C13_PROGRAMS) {
        Some(x) => x,
        None => return Ok(()),
    };
    let inside = |sel: Sel, op: EOp| vec![select(Scope::Any, false, sel, only(vec![op]))];
    let p = if n < 24 {
        let b = body([0, 1, 3, 4, 5, 6, 8, 9][n % 8]);
        match n / 8 {
            0 => vec![select(Scope::Direct, false, tag_sel("a"), b)],
            1 => inside(tag_sel("a"), subselect(Scope::Any, false, tag_sel("a"), b)),
            _ => inside(tag_sel("a"), subselect(Scope::Direct, false, tag_sel("b"), b)),
        }
    } else {
        let contents = |p: SProg| EOp::SubSelectContents(Rc::new(p));
        match n - 24 {
            0 => inside(tag_sel("a"), contents(vec![SOp::Prepend(text("p")), SOp::Append(text("s"))])),
            1 => inside(tag_sel("a"), contents(vec![SOp::Replace(text("r"))])),
            2 => inside(tag_sel("a"), contents(vec![select(Scope::Direct, false, tag_sel("a"), body(0))])),
            3 => inside(tag_sel("a"), contents(vec![select(Scope::Any, false, tag_sel("a"), body(0))])),
            4 => inside(tag_sel("br"), contents(vec![SOp::Prepend(text("p"))])),
            5 => inside(tag_sel("br"), subselect(Scope::Any, false, tag_sel("br"), body(0))),
            6 => inside(tag_sel("a"), contents(vec![SOp::Repeat(two(), Rc::new(vec![]))])),
            _ => inside(
                tag_sel("b"),
                subselect(Scope::Direct, false, tag_sel("a"), only(vec![subselect(Scope::Direct, false, tag_sel("a"), body(0))])),
            ),
        }
    };
    small(ctx, f, p)
}
fn c13_cfg() -> ProgCfg {
    ProgCfg::none()
        .with_s(&[(s::SELECT, 20), (s::PREPEND, 2), (s::APPEND, 2), (s::REPEAT, 1)])
        .with_e(&[(e::SUBSELECT, 12), (e::SUB_CONTENTS, 8), (e::ADD_ATTR_V, 4), (e::REPEAT_C, 2), (e::APPEND_C, 2)])
        .with_t(&[(t::NONE, 12), (t::STREAM, 3), (t::REPEAT, 1)])
}
fn c13_random(ctx: &mut Ctx) -> Res { focused(ctx, &DocCfg::small(), &ProgCfg { depth: 4, ..c13_cfg() }).map(|_| ()) }
fn c13_direct(ctx: &mut Ctx) -> Res { with_selections(ctx, &DocCfg { depth: 7, ..DocCfg::small() }, Some(Scope::Direct), None) }
fn c13_large(ctx: &mut Ctx) -> Res { focused(ctx, &large(), &c13_cfg()).map(|_| ()) }

// ---------------------------------------------------------------- C14, C15

fn inserted(n: usize) -> Content {
    match n {
        0 => text("x<"),
        1 => tmpl(vec![]),
        2 => tmpl(vec![el("a", vec![Node::Text("i".into())]), el("b", vec![])]),
        _ => tmpl(vec![Node::Elem(Elem { tag: "br".into(), close: String::new(), attrs: vec![], kind: Kind::Void, kids: vec![] }), el("a", vec![el("a", vec![])])]),
    }
}
const C14_OPS: usize = 13;
fn c14_op(n: usize) -> EOp {
    match n {
        0 => EOp::RemoveContents,
        1..=4 => EOp::PrependContents(inserted(n - 1)),
        5..=8 => EOp::AppendContents(inserted(n - 5)),
        _ => EOp::ReplaceContents(inserted(n - 9)),
    }
}
const C14_PROGRAMS: u64 = (C14_OPS * 3 + C14_OPS * C14_OPS) as u64;
fn c14_small(ctx: &mut Ctx) -> Res {
    // shorter documents: there are many programs
    let n = (ctx.index % C14_PROGRAMS) as usize;
    let f = match small_forest(ctx.index / C14_PROGRAMS, len(ctx) - 1) {
        Some(f) => f,
        None => return Ok(()),
    };
    let p = if n < C14_OPS * 3 {
        vec![select(Scope::Any, false, pick_sel(n / C14_OPS), only(vec![c14_op(n % C14_OPS)]))]
    } else {
        let n = n - C14_OPS * 3;
        vec![select(Scope::Any, false, tag_sel("a"), only(vec![c14_op(n / C14_OPS), c14_op(n % C14_OPS)]))]
    };
    small(ctx, f, p)
}
fn c14_cfg() -> ProgCfg {
    ProgCfg::none()
        .with_s(&[(s::SELECT, 1)])
        .with_e(&[
            (e::REMOVE_C, 3), (e::PREPEND_C, 6), (e::APPEND_C, 6), (e::REPLACE_C, 4), (e::ADD_ATTR_V, 2), (e::SUB_CONTENTS, 2),
            (e::SUBSELECT, 2), (e::REPEAT_C, 1), (e::BOXED, 1),
        ])
}
fn c14_random(ctx: &mut Ctx) -> Res { focused(ctx, &DocCfg { mix: [6, 12, 5, 5, 2, 1, 1], ..DocCfg::small() }, &c14_cfg()).map(|_| ()) }
fn c14_large(ctx: &mut Ctx) -> Res {
    let cfg = ProgCfg { frag: DocCfg { spike: 20, cap: 300, ..DocCfg::tiny() }, ..c14_cfg() };
    focused(ctx, &large(), &cfg).map(|_| ())
}

const C15_OPS: usize = 13;
fn c15_op(n: usize) -> SOp {
    match n {
        0 => SOp::Remove,
        1..=4 => SOp::Prepend(inserted(n - 1)),
        5..=8 => SOp::Append(inserted(n - 5)),
        _ => SOp::Replace(inserted(n - 9)),
    }
}
const C15_PROGRAMS: u64 = (C15_OPS + C15_OPS * C15_OPS + 3 * C15_OPS) as u64;
fn c15_small(ctx: &mut Ctx) -> Res {
    let n = (ctx.index % C15_PROGRAMS) as usize;
    let f = match small_forest(ctx.index / C15_PROGRAMS, len(ctx) - 1) {
        Some(f) => f,
        None => return Ok(()),
    };
    let p = if n < C15_OPS {
        vec![c15_op(n)]
    } else if n < C15_OPS + C15_OPS * C15_OPS {
        let n = n - C15_OPS;
        vec![c15_op(n / C15_OPS), c15_op(n % C15_OPS)]
    } else {
        let n = n - C15_OPS - C15_OPS * C15_OPS;
        vec![select(Scope::Any, false, pick_sel(n / C15_OPS), tail(ETail::Stream(c15_op(n % C15_OPS))))]
    };
    small(ctx, f, p)
}
fn c15_cfg() -> ProgCfg {
    ProgCfg::none()
        .with_s(&[(s::PREPEND, 6), (s::APPEND, 6), (s::REPLACE, 2), (s::REMOVE, 2), (s::SELECT, 6), (s::REPEAT, 2), (s::APPLY_TMPL, 1), (s::BOXED, 1)])
        .with_e(&[(e::ADD_ATTR_V, 1), (e::SUB_CONTENTS, 2), (e::REPEAT_C, 1)])
        .with_t(&[(t::NONE, 2), (t::STREAM, 8)])
}
fn c15_random(ctx: &mut Ctx) -> Res { focused(ctx, &DocCfg::small(), &ProgCfg { s_ops: 3, ..c15_cfg() }).map(|_| ()) }
fn c15_large(ctx: &mut Ctx) -> Res {
    let cfg = ProgCfg { frag: DocCfg { spike: 20, cap: 300, ..DocCfg::tiny() }, ..c15_cfg() };
    focused(ctx, &large(), &cfg).map(|_| ())
}

// ---------------------------------------------------------------- C16, C17

fn attr_doc(attrs: refparse::Attrs, kind: Kind) -> Forest {
    let tag = if kind == Kind::Void { "br" } else { "p" };
    let kids = if kind == Kind::Open {
        // neighbours which must not be touched
        vec![Node::Elem(Elem {
            tag: "q".into(),
            close: "q".into(),
            attrs: attrs.clone(),
            kind: Kind::Open,
            kids: vec![Node::Text("t".into())],
        })]
    } else {
        vec![]
    };
    let close = if kind == Kind::Open { tag.to_string() } else { String::new() };
    vec![
        Node::Elem(Elem { tag: "q".into(), close: String::new(), attrs: attrs.clone(), kind: Kind::SelfClosed, kids: vec![] }),
        Node::Elem(Elem { tag: tag.into(), close, attrs: attrs.clone(), kind, kids }),
        Node::Elem(Elem { tag: "img".into(), close: String::new(), attrs, kind: Kind::Void, kids: vec![] }),
    ]
}
fn on_target(kind: Kind, ops: Vec<EOp>) -> SProg {
    vec![select(Scope::Any, false, tag_sel(if kind == Kind::Void { "br" } else { "p" }), only(ops))]
}
const KINDS: [Kind; 3] = [Kind::Open, Kind::Void, Kind::SelfClosed];

const C16_ATTRS: &[(&str, Option<&str>)] =
    &[("k", None), ("K", Some("1")), ("k", Some("")), ("x", Some("2 3")), ("kk", Some("4")), ("k", Some("&quot;"))];
const C16_NAMES: &[&str] = &["k", "K", "x", "n"];
const C16_VERBS: usize = 11;
const C16_OPS: usize = C16_VERBS * 4;
fn c16_op(n: usize) -> EOp {
    let k = name(C16_NAMES[n / C16_VERBS]);
    let v = TextSrc::Static("v\"");
    match n % C16_VERBS {
        0 => EOp::AddAttr(k, Some(v)),
        1 => EOp::AddAttr(k, None),
        2 => EOp::AddAttrValue(k, v),
        3 => EOp::AddEmpty(k),
        4 => EOp::AddTo(k, v, TextSrc::Static(",")),
        5 => EOp::ReplaceIfExists(k, v),
        6 => EOp::SetAttr(k, Some(v)),
        7 => EOp::SetAttr(k, None),
        8 => EOp::SetAttrValue(k, TextSrc::Int(8, -1)),
        9 => EOp::SetEmpty(k),
        _ => EOp::RemoveAttr(k),
    }
}
/// Attribute lists of up to 4 entries: 1 + 6 + 36 + 216 + 1296.
fn nth_list<T: Clone>(mut n: u64, table: &[T]) -> Vec<T> {
    let k = table.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while n >= count {
        n -= count;
        count *= k;
        len += 1;
    }
    let mut out = Vec::new();
    for _ in 0..len {
        out.push(table[(n % k) as usize].clone());
        n /= k;
    }
    out
}
const C16_LISTS: u64 = 1 + 6 + 36 + 216 + 1296;
const C16_SMALL: u64 = C16_LISTS * C16_OPS as u64 * 3;
fn c16_small(ctx: &mut Ctx) -> Res {
    let i = ctx.index;
    let kind = KINDS[(i % 3) as usize];
    let op = c16_op((i / 3) as usize % C16_OPS);
    let attrs: refparse::Attrs = nth_list(i / 3 / C16_OPS as u64, C16_ATTRS)
        .into_iter()
        .map(|(k, v)| (k.to_string(), v.map(|v| v.to_string())))
        .collect();
    small(ctx, attr_doc(attrs, kind), on_target(kind, vec![op]))
}
const C16_PAIRS: u64 = (C16_OPS * C16_OPS) as u64 * 43;
fn c16_pairs(ctx: &mut Ctx) -> Res {
    let i = ctx.index as usize;
    let (a, b) = (c16_op(i % C16_OPS), c16_op(i / C16_OPS % C16_OPS));
    let attrs: refparse::Attrs = nth_list((i / C16_OPS / C16_OPS) as u64, C16_ATTRS)
        .into_iter()
        .map(|(k, v)| (k.to_string(), v.map(|v| v.to_string())))
        .collect();
    small(ctx, attr_doc(attrs, Kind::Open), on_target(Kind::Open, vec![a, b]))
}
fn c16_cfg() -> ProgCfg {
    ProgCfg::none()
        .with_s(&[(s::SELECT, 1)])
        .with_e(&[
            (e::ADD_ATTR, 2), (e::ADD_ATTR_V, 2), (e::ADD_EMPTY, 2), (e::ADD_TO, 4), (e::REPLACE_IF, 3), (e::SET_ATTR, 3),
            (e::SET_ATTR_V, 3), (e::SET_EMPTY, 2), (e::REMOVE_ATTR, 4), (e::SUBSELECT, 1), (e::APPEND_C, 1), (e::BOXED, 1),
        ])
}
fn c16_random(ctx: &mut Ctx) -> Res {
    let d = DocCfg { attrs: 3, mix: [4, 12, 5, 5, 1, 0, 0], ..DocCfg::small() };
    focused(ctx, &d, &ProgCfg { e_ops: 4, ..c16_cfg() }).map(|_| ())
}
fn c16_long(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let dcfg = DocCfg { attrs: 12, spike: 100, cap: 260, kids: 1, depth: 1, ..DocCfg::small() };
    let attrs = gen::attrs(src, &dcfg, 20);
    let kind = *src.pick(&KINDS);
    let mut ops = gen::eops(src, &ProgCfg { depth: 0, e_ops: 6, ..c16_cfg() });
    ops.truncate(12);
    ctx.classify_if(attrs.len() > 20, "20+ attributes");
    small(ctx, attr_doc(attrs, kind), on_target(kind, ops))
}

const C17_ATTRS: &[(&str, Option<&str>)] = &[
    ("class", Some("x")), ("CLASS", Some(" y X  y ")), ("class", None), ("class", Some("")), ("id", Some("x")), ("Id", None),
    ("classes", Some("x")), ("class", Some("y xy\tx\nx-y")),
];
const C17_OPS: usize = 11;
fn c17_op(n: usize) -> EOp {
    match n {
        0 => EOp::AddClass(name("x")),
        1 => EOp::AddClass(name("Y")),
        2 => EOp::RemoveClass(name("x")),
        3 => EOp::RemoveClass(name("X")),
        4 => EOp::RemoveClass(name("y")),
        5 => EOp::RemoveClass(name("n")),
        6 => EOp::SetId(name("x")),
        7 => EOp::SetId(name("N")),
        8 => EOp::RemoveId,
        9 => EOp::RemoveClass(name("xy")),
        _ => EOp::AddClass(name("xy")),
    }
}
const C17_LISTS: u64 = 1 + 8 + 64 + 512;
const C17_SMALL: u64 = C17_LISTS * (C17_OPS * C17_OPS) as u64;
fn c17_small(ctx: &mut Ctx) -> Res {
    let i = ctx.index as usize;
    let (a, b) = (c17_op(i % C17_OPS), c17_op(i / C17_OPS % C17_OPS));
    let attrs: refparse::Attrs = nth_list((i / C17_OPS / C17_OPS) as u64, C17_ATTRS)
        .into_iter()
        .map(|(k, v)| (k.to_string(), v.map(|v| v.to_string())))
        .collect();
    let ops = if i % C17_OPS == i / C17_OPS % C17_OPS { vec![a] } else { vec![a, b] };
    let kind = KINDS[i % 3];
    let last = ops[ops.len() - 1].clone();
    small(ctx, attr_doc(attrs.clone(), kind), on_target(kind, ops.clone()))?;
    // what a selection sees afterwards
    let s = model::render(&attr_doc(attrs, kind));
    let out = interp::transform(&must_parse(&s)?, &on_target(kind, ops.clone())).map_err(|e| Stop::Fail(format!("{:?}", e)))?;
    let target = if kind == Kind::Void { "br" } else { "p" };
    let (sel, want) = match &last {
        EOp::AddClass(n) => (format!("{}.{}", target, n.0), Some(true)),
        EOp::RemoveClass(n) => (format!("{}.{}", target, n.0), Some(false)),
        EOp::SetId(n) => (format!("{}#{}", target, n.0), Some(true)),
        _ => (format!("{}#x", target), Some(false)),
    };
    let hits = selectors::events_of(&out)?
        .iter()
        .filter(|e| {
            use html5_fuser::select::{IntoSelector, Selector};
            gen::intern(&sel).into_selector().expect("valid").matches(e)
        })
        .count();
    if let Some(w) = want {
        if (hits == 1) != w || hits > 1 {
            return fail(format!("after {:?} on {:?} the selector {} has {} matches", ops, s, sel, hits));
        }
    }
    Ok(())
}
fn c17_cfg() -> ProgCfg {
    ProgCfg::none()
        .with_s(&[(s::SELECT, 1)])
        .with_e(&[
            (e::ADD_CLASS, 6), (e::REMOVE_CLASS, 8), (e::SET_ID, 3), (e::REMOVE_ID, 3), (e::SUBSELECT, 2), (e::ADD_ATTR_V, 1),
            (e::REMOVE_ATTR, 1), (e::ADD_TO, 1), (e::SET_ATTR, 1),
        ])
}
fn c17_random(ctx: &mut Ctx) -> Res {
    let d = DocCfg { attrs: 2, class_heavy: true, spike: 6, cap: 130, mix: [4, 12, 5, 5, 1, 0, 0], ..DocCfg::small() };
    focused(ctx, &d, &ProgCfg { e_ops: 4, ..c17_cfg() }).map(|_| ())
}
fn c17_long(ctx: &mut Ctx) -> Res {
    const WORDS: &[&str] = &["x", "X", "y", "xy", "z", "x-y", "xx", "y1", "q"];
    const SEP: &[&str] = &[" ", " ", " ", "  ", "\t", "\n", "\r\n", "\u{c}", " \t "];
    let src = &mut ctx.src;
    let mut attrs: refparse::Attrs = vec![];
    let n = src.range(1, 3);
    for _ in 0..n {
        let m = src.size(10, 300);
        let mut v = String::new();
        if src.chance(1, 4) {
            v.push_str(src.pick(SEP));
        }
        for i in 0..m {
            if i > 0 {
                v.push_str(src.pick(SEP));
            }
            v.push_str(src.pick(WORDS));
        }
        if src.chance(1, 4) {
            v.push_str(src.pick(SEP));
        }
        attrs.push(((*src.pick(&["class", "Class", "k", "id"])).to_string(), Some(v)));
    }
    let kind = *src.pick(&KINDS);
    let ops = gen::eops(src, &ProgCfg { depth: 0, e_ops: 4, ..c17_cfg() });
    small(ctx, attr_doc(attrs, kind), on_target(kind, ops))
}

// ---------------------------------------------------------------- C18

fn c18_cfg() -> ProgCfg {
    ProgCfg::none()
        .with_s(&[(s::REPEAT, 8), (s::REPEAT_OR, 8), (s::SELECT, 10), (s::APPEND, 2), (s::PREPEND, 2), (s::REMOVE, 1)])
        .with_e(&[(e::REPEAT_C, 8), (e::ADD_ATTR_V, 4), (e::APPEND_C, 2), (e::SUBSELECT, 4), (e::REPLACE_C, 1)])
        .with_t(&[(t::NONE, 6), (t::REPEAT, 6), (t::REPEAT_OR, 6), (t::REPEAT_C_OR, 8), (t::STREAM, 2)])
}
fn c18_random(ctx: &mut Ctx) -> Res { focused(ctx, &DocCfg::tiny(), &c18_cfg()).map(|_| ()) }

const C18_PROGRAMS: u64 = 5 * 8;
fn c18_small(ctx: &mut Ctx) -> Res {
    let (f, n) = match split(ctx, C18_PROGRAMS) {
        Some(x) => x,
        None => return Ok(()),
    };
    let items = match n % 5 {
        0 => none(),
        1 => Items { values: vec![7], by: IterBy::Unfused },
        2 => two(),
        3 => Items { values: vec![], by: IterBy::Unfused },
        _ => Items { values: vec![1, 2, 3], by: IterBy::Range },
    };
    let add = Rc::new(vec![SOp::Append(Content::Text(TextSrc::Env(0)))]);
    let m = Rc::new(only(vec![mark()]));
    let other = Rc::new(only(vec![EOp::AddEmpty(name("else"))]));
    let on = |e: EProg| vec![select(Scope::Any, false, tag_sel("a"), e)];
    let p = match n / 5 {
        0 => vec![SOp::Repeat(items, add)],
        1 => vec![SOp::RepeatOrElse(items, add, Rc::new(vec![SOp::Prepend(text("else"))]))],
        2 => on(only(vec![EOp::RepeatContents(items, add)])),
        3 => on(EProg { ops: vec![], tail: ETail::Repeat(items, m), rest: vec![] }),
        4 => on(EProg { ops: vec![], tail: ETail::RepeatOrElse(items, m, other), rest: vec![] }),
        5 => on(EProg { ops: vec![], tail: ETail::RepeatContentsOrElse(items, add, other), rest: vec![] }),
        6 => vec![
            SOp::Repeat(items.clone(), Rc::new(vec![select(Scope::Any, true, tag_sel("a"), only(vec![mark()]))])),
            SOp::Repeat(items, add),
        ],
        _ => on(only(vec![
            EOp::RepeatContents(items.clone(), Rc::new(vec![select(Scope::Direct, false, tag_sel("b"), only(vec![mark()]))])),
            EOp::RepeatContents(items, add),
        ])),
    };
    small(ctx, f, p)
}

/// An iterator which notes how it is used.
struct Watched {
    left: usize,
    at: i64,
    log: Rc<std::cell::RefCell<(usize, usize)>>,
    hint: u8,
    live: Rc<()>,
}
impl Iterator for Watched {
    type Item = (i64, Rc<()>);
    fn next(&mut self) -> Option<(i64, Rc<()>)> {
        let mut log = self.log.borrow_mut();
        if self.left == 0 {
            log.1 += 1;
            // resumes after its end
            self.left = 1;
            return None;
        }
        self.left -= 1;
        self.at += 1;
        log.0 += 1;
        Some((self.at, self.live.clone()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (0, None),
            1 => (self.left, Some(self.left)),
            2 => (0, Some(0)),
            _ => (usize::MAX, None),
        }
    }
}

/// Every item is taken from the iterator once and given to the builder once, in order, and the
/// iterator is asked no more after its end.
fn c18_iterators(ctx: &mut Ctx) -> Res {
    use std::cell::RefCell;
    let n = ctx.src.size(6, 3000);
    let hint = ctx.src.below(4) as u8;
    let form = ctx.src.below(6);
    let (s, f) = gen::doc(&mut ctx.src, &DocCfg { kids: 1, ..DocCfg::tiny() });
    ctx.input(&(n, hint, form));
    ctx.input(&s);
    let log = Rc::new(RefCell::new((0, 0)));
    let seen: Rc<RefCell<Vec<i64>>> = Rc::new(RefCell::new(vec![]));
    let elses = Rc::new(RefCell::new(0));
    let live = Rc::new(());
    let it = Watched { left: n, at: 0, log: log.clone(), hint, live: live.clone() };
    let text = format!("<w>{}</w>", s);
    let t = must_parse(&text)?;
    let inner = model::render(&f);
    let (seen2, elses2) = (seen.clone(), elses.clone());
    let out = match form {
        0 => t.transform(move |a| {
            a.repeat(it, move |a, (v, _): (i64, Rc<()>)| {
                seen2.borrow_mut().push(v);
                a.append(v)
            })
        }),
        1 => t.transform(move |a| {
            a.repeat_or_else(
                it,
                move |a, (v, _): (i64, Rc<()>)| {
                    seen2.borrow_mut().push(v);
                    a.append(v)
                },
                move |a| {
                    *elses2.borrow_mut() += 1;
                    a.append("else")
                },
            )
        }),
        2 => t.transform(move |a| {
            a.select_once("w", move |e| {
                let it = std::cell::RefCell::new(Some(it));
                let it = it.borrow_mut().take().unwrap();
                e.repeat_contents(it, move |a, (v, _): (i64, Rc<()>)| {
                    seen2.borrow_mut().push(v);
                    a.append(v)
                })
            })
        }),
        3 => {
            let mut it = Some(it);
            t.transform(move |a| {
                a.select_once("w", move |e| {
                    let seen2 = seen2.clone();
                    e.repeat(it.take().expect("once"), move |a, (v, _): (i64, Rc<()>)| {
                        seen2.borrow_mut().push(v);
                        a.append(v)
                    })
                })
            })
        }
        4 => {
            let mut it = Some(it);
            t.transform(move |a| {
                a.select_once("w", move |e| {
                    let (seen2, elses2) = (seen2.clone(), elses2.clone());
                    e.repeat_or_else(
                        it.take().expect("once"),
                        move |a, (v, _): (i64, Rc<()>)| {
                            seen2.borrow_mut().push(v);
                            a.append(v)
                        },
                        move |a| {
                            *elses2.borrow_mut() += 1;
                            a.append("else")
                        },
                    )
                })
            })
        }
        _ => {
            let mut it = Some(it);
            t.transform(move |a| {
                a.select_once("w", move |e| {
                    let (seen2, elses2) = (seen2.clone(), elses2.clone());
                    e.repeat_contents_or_else(
                        it.take().expect("once"),
                        move |a, (v, _): (i64, Rc<()>)| {
                            seen2.borrow_mut().push(v);
                            a.append(v)
                        },
                        move |a| {
                            *elses2.borrow_mut() += 1;
                            a.append("else")
                        },
                    )
                })
            })
        }
    };
    let out = out.map_err(|e| Stop::Fail(format!("repetition failed: {:?}", e)))?;
    let all: Vec<i64> = (1..=n as i64).collect();
    let whole = format!("<w>{}</w>", inner);
    let or_else = matches!(form, 1 | 4 | 5);
    let want = if n == 0 && or_else {
        format!("{}else", whole)
    } else if matches!(form, 2 | 5) {
        format!("<w>{}</w>", all.iter().map(|v| format!("{}{}", inner, v)).collect::<String>())
    } else {
        all.iter().map(|v| format!("{}{}", whole, v)).collect::<String>()
    };
    same_text(&format!("repetition of form {} with {} items", form, n), &out.to_string(), &want)?;
    if *seen.borrow() != all {
        return fail(format!("the builder was called with {:?}, expected 1 to {}", seen.borrow(), n));
    }
    let e = *elses.borrow();
    if e != usize::from(n == 0 && or_else) {
        return fail(format!("the alternative builder ran {} times for {} items", e, n));
    }
    let (taken, ends) = *log.borrow();
    if taken != n || ends != 1 {
        return fail(format!("{} of {} items were taken, and the end was reached {} times (form {})", taken, n, ends, form));
    }
    if Rc::strong_count(&live) != 1 {
        return fail(format!("items or the iterator are still held after the transform (form {})", form));
    }
    ctx.classify_if(n == 0, "no items");
    ctx.classify_if(n > 50, "50+ items");
    ctx.note(|| format!("form {} with {} items on {:?}", form, n, short(&text)));
    ctx.nontrivial(n != 1);
    Ok(())
}

fn c18_many(ctx: &mut Ctx) -> Res {
    let n = ctx.src.size(60, 5000);
    let items = Items {
        values: (0..n as i64).collect(),
        by: if ctx.src.chance(1, 2) { IterBy::Vec } else { IterBy::Unfused },
    };
    let cfg = ProgCfg { depth: 1, ..c18_cfg() };
    let sub = gen::sprog(&mut ctx.src, &ProgCfg { depth: 1, s_ops: 1, ..cfg.clone() });
    let (s, f) = gen::doc(&mut ctx.src, &DocCfg { kids: 1, ..DocCfg::tiny() });
    let p = match ctx.src.below(3) {
        0 => vec![SOp::Repeat(items, Rc::new(sub))],
        1 => vec![SOp::RepeatOrElse(items, Rc::new(sub), Rc::new(vec![]))],
        _ => vec![select(Scope::Any, false, tag_sel("a"), only(vec![EOp::RepeatContents(items, Rc::new(sub))]))],
    };
    let d = diff(ctx, &s, &f, &p)?;
    ctx.nontrivial(d.changed);
    ctx.classify_if(n > 200, "200+ items");
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19_cfg() -> ProgCfg {
    ProgCfg::none()
        .with_s(&[
            (s::APPLY, 3), (s::APPLY_IF, 4), (s::APPLY_IF_ELSE, 4), (s::APPLY_OPT, 4), (s::APPLY_RES, 4), (s::APPLY_BOXED, 3),
            (s::APPLY_TMPL, 5), (s::BOXED, 2), (s::SELECT, 10), (s::APPEND, 3), (s::PREPEND, 2), (s::REPEAT, 2),
        ])
        .with_e(&[
            (e::APPLY, 3), (e::APPLY_IF, 4), (e::APPLY_IF_ELSE, 4), (e::APPLY_OPT, 4), (e::APPLY_RES, 4), (e::APPLY_BOXED, 3),
            (e::BOXED, 2), (e::ADD_ATTR_V, 5), (e::APPEND_C, 3), (e::SUBSELECT, 2), (e::SUB_CONTENTS, 2),
        ])
        .with_t(&[(t::NONE, 6), (t::APPLY, 3), (t::APPLY_IF, 3), (t::APPLY_BOXED, 3), (t::STREAM, 3)])
}
fn c19_random(ctx: &mut Ctx) -> Res { focused(ctx, &DocCfg::small(), &ProgCfg { depth: 4, ..c19_cfg() }).map(|_| ()) }

/// Wraps parts of a program into operations which must not change what it does.
fn wrap_s(src: &mut Src, p: &SProg, rate: u64) -> SProg {
    let mut out: SProg = Vec::new();
    let mut i = 0;
    while i < p.len() {
        if src.chance(1, rate) {
            let n = src.range(1, p.len() - i);
            let inner: SProg = p[i..i + n].iter().map(|op| wrap_sop(src, op, rate)).collect();
            let inner = Rc::new(inner);
            let noise = Rc::new(vec![SOp::Remove]);
            out.push(match src.below(8) {
                0 => SOp::Apply(inner),
                1 => SOp::ApplyIf(true, inner),
                2 => SOp::ApplyIfElse(true, inner, noise),
                3 => SOp::ApplyIfElse(false, noise, inner),
                4 => SOp::ApplyOption(None, noise, inner),
                5 => SOp::ApplyBoxed(inner),
                6 => SOp::ApplyTemplate(inner),
                _ => SOp::Apply(Rc::new(vec![SOp::Apply(inner)])),
            });
            i += n;
        } else {
            if src.chance(1, rate) {
                out.push(match src.below(3) {
                    0 => SOp::IntoBoxed,
                    1 => SOp::ApplyIf(false, Rc::new(vec![SOp::Remove])),
                    _ => SOp::Apply(Rc::new(vec![])),
                });
            }
            out.push(wrap_sop(src, &p[i], rate));
            i += 1;
        }
    }
    out
}
fn wrap_sop(src: &mut Src, op: &SOp, rate: u64) -> SOp {
    match op {
        SOp::Select { scope, once, sel, body } => SOp::Select {
            scope: *scope,
            once: *once,
            sel: sel.clone(),
            body: Rc::new(wrap_e(src, body, rate)),
        },
        SOp::Repeat(i, p) => SOp::Repeat(i.clone(), Rc::new(wrap_s(src, p, rate))),
        SOp::RepeatOrElse(i, p, q) => {
            SOp::RepeatOrElse(i.clone(), Rc::new(wrap_s(src, p, rate)), Rc::new(wrap_s(src, q, rate)))
        }
        other => other.clone(),
    }
}
fn wrap_e(src: &mut Src, p: &EProg, rate: u64) -> EProg {
    let mut ops = Vec::new();
    for op in &p.ops {
        let op = match op {
            EOp::SubSelectContents(p) => EOp::SubSelectContents(Rc::new(wrap_s(src, p, rate))),
            EOp::RepeatContents(i, p) => EOp::RepeatContents(i.clone(), Rc::new(wrap_s(src, p, rate))),
            EOp::SubSelect { scope, once, sel, body } => EOp::SubSelect {
                scope: *scope,
                once: *once,
                sel: sel.clone(),
                body: Rc::new(wrap_e(src, body, rate)),
            },
            other => other.clone(),
        };
        if src.chance(1, rate) {
            let inner = Rc::new(vec![op]);
            let noise = Rc::new(vec![EOp::RemoveContents, EOp::AddEmpty(name("noise"))]);
            ops.push(match src.below(7) {
                0 => EOp::Apply(inner),
                1 => EOp::ApplyIf(true, inner),
                2 => EOp::ApplyIfElse(true, inner, noise),
                3 => EOp::ApplyIfElse(false, noise, inner),
                4 => EOp::ApplyOption(None, noise, inner),
                5 => EOp::ApplyBoxedElement(inner),
                _ => EOp::ApplyIfElse(true, Rc::new(vec![EOp::ApplyIf(true, inner)]), noise),
            });
        } else {
            ops.push(op);
        }
        if src.chance(1, rate * 2) {
            ops.push(if src.chance(1, 2) { EOp::IntoBoxedElement } else { EOp::ApplyIf(false, Rc::new(vec![EOp::RemoveContents])) });
        }
    }
    let t = match &p.tail {
        ETail::Stream(op) => ETail::Stream(wrap_sop(src, op, rate)),
        ETail::Repeat(i, p) => ETail::Repeat(i.clone(), Rc::new(wrap_e(src, p, rate))),
        other => other.clone(),
    };
    let rest = wrap_s(src, &p.rest, rate);
    let out = EProg { ops, tail: t, rest };
    if src.chance(1, rate) {
        EProg {
            ops: vec![],
            tail: match src.below(2) {
                0 => ETail::Apply(Rc::new(out)),
                _ => ETail::ApplyIf(true, Rc::new(out)),
            },
            rest: vec![],
        }
    } else {
        out
    }
}

/// Calls of builders other than the wrappers' own.
fn plain_cfg() -> ProgCfg {
    let mut c = ProgCfg::default();
    for i in s::APPLY..=s::BOXED {
        c.s[i] = 0;
    }
    for i in e::APPLY..=e::BOXED {
        c.e[i] = 0;
    }
    for i in t::APPLY..=t::APPLY_BOXED {
        c.tail[i] = 0;
    }
    c
}

fn c19_wrapped(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg::small());
    let p = gen::sprog(&mut ctx.src, &plain_cfg());
    let rate = 2 + ctx.src.draw(3);
    let q = wrap_s(&mut ctx.src, &p, rate);
    ctx.input(&s);
    ctx.input(&q);
    let t = must_parse(&s)?;
    let a = interp::transform(&t, &p);
    let b = interp::transform(&t, &q);
    let about = || format!("{:?}\n  by {}\n  or {}", short(&s), short(&format!("{:?}", p)), short(&format!("{:?}", q)));
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            same_text(&about(), &b.to_string(), &a.to_string())?;
            if a != b {
                return fail(format!("{}: equal output, but not equal templates", about()));
            }
            ctx.nontrivial(a.to_string() != model::render(&f) && p != q);
        }
        (a, b) => return fail(format!("{}: {:?} / {:?}", about(), a, b)),
    }
    // and the meaning is the expected one
    let d = diff_parsed(ctx, &t, &s, &f, &q)?;
    ctx.classify_if(d.calls.iter().any(|c| c.0 == "apply"), "unconditional wrappers run");
    Ok(())
}

const C19_PROGRAMS: u64 = 20;
fn c19_small(ctx: &mut Ctx) -> Res {
    let (f, n) = match split(ctx, C19_PROGRAMS) {
        Some(x) => x,
        None => return Ok(()),
    };
    let yes = Rc::new(vec![SOp::Append(text("y"))]);
    let no = Rc::new(vec![SOp::Prepend(text("n")), select(Scope::Any, false, tag_sel("b"), body(1))]);
    let ey = Rc::new(vec![mark()]);
    let en = Rc::new(vec![EOp::AppendContents(text("n")), EOp::AddEmpty(name("n"))]);
    let on = |ops: Vec<EOp>| vec![select(Scope::Any, false, tag_sel("a"), only(ops))];
    let p = match n {
        0 => vec![SOp::Apply(no)],
        1 => vec![SOp::ApplyIf(true, no)],
        2 => vec![SOp::ApplyIf(false, no)],
        3 => vec![SOp::ApplyIfElse(true, yes, no)],
        4 => vec![SOp::ApplyIfElse(false, yes, no)],
        5 => vec![SOp::ApplyOption(Some(5), Rc::new(vec![SOp::Append(Content::Text(TextSrc::Env(0)))]), no)],
        6 => vec![SOp::ApplyOption(None, yes, no)],
        7 => vec![SOp::ApplyResult(Ok(6), Rc::new(vec![SOp::Append(Content::Text(TextSrc::Env(0)))]), no)],
        8 => vec![SOp::ApplyResult(Err(7), no, Rc::new(vec![SOp::Append(Content::Text(TextSrc::Env(0)))]))],
        9 => vec![SOp::ApplyBoxed(no), SOp::IntoBoxed],
        10 => vec![SOp::ApplyTemplate(no)],
        11 => on(vec![EOp::ApplyIf(true, en)]),
        12 => on(vec![EOp::ApplyIfElse(true, ey, en)]),
        13 => on(vec![EOp::ApplyIfElse(false, ey, en)]),
        14 => on(vec![EOp::ApplyOption(Some(8), ey, en)]),
        15 => on(vec![EOp::ApplyOption(None, ey, en)]),
        16 => on(vec![EOp::ApplyResult(Err(9), en, ey)]),
        17 => on(vec![EOp::ApplyBoxedElement(en), EOp::IntoBoxedElement]),
        18 => vec![select(
            Scope::Any,
            false,
            tag_sel("a"),
            EProg { ops: vec![], tail: ETail::ApplyBoxed(no), rest: vec![SOp::ApplyTemplate(yes)] },
        )],
        _ => vec![select(
            Scope::Any,
            false,
            tag_sel("a"),
            EProg { ops: vec![], tail: ETail::Stream(SOp::ApplyTemplate(no)), rest: vec![] },
        )],
    };
    small(ctx, f, p)
}

// ---------------------------------------------------------------- C20

fn c20_random(ctx: &mut Ctx) -> Res { focused(ctx, &DocCfg::small(), &ProgCfg::default()).map(|_| ()) }
fn c20_deep(ctx: &mut Ctx) -> Res {
    let cfg = ProgCfg { depth: 5, s_ops: 3, e_ops: 3, max_items: 3, ..ProgCfg::default() };
    let (s, f) = doc(ctx, &DocCfg { spike: 0, ..DocCfg::tiny() });
    let p = gen::sprog(&mut ctx.src, &cfg);
    // the size of the result may explode
    let mut budget = 4_000usize;
    if !affordable(&p, &mut budget) {
        ctx.classify("left out (too large)");
        return Ok(());
    }
    let d = diff(ctx, &s, &f, &p)?;
    ctx.nontrivial(d.changed && !d.calls.is_empty());
    Ok(())
}
/// A rough bound on the work of a program.
fn affordable(p: &SProg, budget: &mut usize) -> bool { format!("{:?}", p).len() / 20 < std::mem::take(budget) }

fn c20_chain(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg::small());
    let cfg = ProgCfg { s_ops: 5, depth: 2, ..ProgCfg::default() };
    let p = gen::sprog(&mut ctx.src, &cfg);
    ctx.input(&s);
    ctx.input(&p);
    let t = must_parse(&s)?;
    let at_once = interp::transform(&t, &p);
    let mut step: Result<Template, _> = t.transform(|a| a);
    if let Ok(x) = &step {
        if *x != t || x.to_string() != t.to_string() {
            return fail(format!("an empty transform of {:?} gives {:?}", s, x.to_string()));
        }
    }
    for op in &p {
        step = match step {
            Ok(x) => interp::transform(&x, &vec![op.clone()]),
            Err(e) => Err(e),
        };
    }
    let about = || format!("{:?} by {}", short(&s), short(&format!("{:?}", p)));
    match (at_once, step) {
        (Ok(a), Ok(b)) => {
            same_text(&format!("{} one after the other", about()), &b.to_string(), &a.to_string())?;
            if a != b {
                return fail(format!("{} one after the other: not equal", about()));
            }
            ctx.note(|| format!("{} -> {:?}", about(), short(&a.to_string())));
            ctx.nontrivial(p.len() > 1 && a.to_string() != model::render(&f));
        }
        (a, b) => return fail(format!("{}: {:?} at once, {:?} one after the other", about(), a, b)),
    }
    ctx.classify_if(p.len() > 2, "3+ operations");
    Ok(())
}

/// All pairs of a list of operations on all small documents.
const C20_OPS: usize = 14;
fn c20_op(n: usize) -> SOp {
    match n {
        0 => select(Scope::Any, false, tag_sel("a"), body(0)),
        1 => select(Scope::Any, true, tag_sel("a"), body(5)),
        2 => select(Scope::Direct, false, tag_sel("b"), body(3)),
        3 => select(Scope::Any, false, tag_sel("b"), body(1)),
        4 => select(Scope::Any, false, tag_sel("a"), body(4)),
        5 => select(Scope::Any, false, tag_sel("a"), body(11)),
        6 => SOp::Repeat(two(), Rc::new(vec![SOp::Append(Content::Text(TextSrc::Env(0)))])),
        7 => SOp::Append(tmpl(vec![el("a", vec![el("b", vec![])])])),
        8 => SOp::Prepend(tmpl(vec![el("b", vec![])])),
        9 => SOp::ApplyTemplate(Rc::new(vec![select(Scope::Any, true, tag_sel("b"), body(9))])),
        10 => SOp::Remove,
        11 => select(Scope::Any, false, tag_sel("br"), body(2)),
        12 => select(Scope::Direct, true, tag_sel("a"), body(12)),
        _ => SOp::Replace(tmpl(vec![el("a", vec![Node::Text("r".into())])])),
    }
}
const C20_PROGRAMS: u64 = (C20_OPS * C20_OPS) as u64;
fn c20_pairs(ctx: &mut Ctx) -> Res {
    let n = (ctx.index % C20_PROGRAMS) as usize;
    let f = match small_forest(ctx.index / C20_PROGRAMS, len(ctx) - 2) {
        Some(f) => f,
        None => return Ok(()),
    };
    small(ctx, f, vec![c20_op(n / C20_OPS), c20_op(n % C20_OPS)])
}
fn c20_large(ctx: &mut Ctx) -> Res {
    let cfg = ProgCfg { depth: 2, s_ops: 1, max_items: 3, ..ProgCfg::default() };
    focused(ctx, &DocCfg { spike: 40, cap: 600, ..DocCfg::small() }, &cfg).map(|_| ())
}

// ---------------------------------------------------------------- C22

fn merged(evs: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::new();
    for ev in evs {
        match ev {
            Ev::Text(t) | Ev::Raw(t) => {
                if t.is_empty() {
                    continue;
                }
                if let Some(Ev::Text(prev)) = out.last_mut() {
                    prev.push_str(t);
                } else {
                    out.push(Ev::Text(t.clone()));
                }
            }
            other => out.push(other.clone()),
        }
    }
    out
}

/// Does some script, style, title or textarea hold more than plain text?
fn raw_spoiled(f: &[Node]) -> bool {
    f.iter().any(|n| match n {
        Node::Elem(e) if refparse::is_raw(&e.tag) && e.kind == Kind::Open => {
            let raws = e.kids.iter().filter(|k| matches!(k, Node::Raw(_))).count();
            raws > 1
                || e.kids.iter().any(|k| match k {
                    Node::Elem(_) | Node::Comment(_) | Node::Doctype(_) => true,
                    // text of a template may hold a plain `>`
                    Node::Text(t) => t.contains('>') && raws > 0,
                    Node::Raw(_) => false,
                })
        }
        Node::Elem(e) => raw_spoiled(&e.kids),
        _ => false,
    })
}

fn well_formed(ctx: &mut Ctx, dcfg: &DocCfg, pcfg: &ProgCfg) -> Res {
    let (s, f) = doc(ctx, dcfg);
    let p = gen::sprog(&mut ctx.src, pcfg);
    ctx.input(&s);
    ctx.input(&p);
    let t = must_parse(&s)?;
    let about = || format!("{:?} by {}", short(&s), short(&format!("{:?}", p)));
    let out = match interp::transform(&t, &p) {
        Ok(o) => o,
        Err(e) => return fail(format!("{} fails: {:?}", about(), e)),
    };
    let want = model::run_s(f.clone(), &p, &interp::root_env());
    if want == Err(MErr::TooLarge) {
        return Err(Stop::Excluded("the result is too large for the harness"));
    }
    let _ = model::take_calls();
    let want = want.map_err(|e| Stop::Harness(format!("{:?}", e)))?;
    if raw_spoiled(&want) {
        ctx.classify("markup in a raw text element (left out)");
        return Ok(());
    }
    let r = out.to_string();
    // independent reader
    let evs = match refparse::parse(&r, None) {
        Ok(e) => e,
        Err(e) => return fail(format!("{}: the output {:?} does not read as markup: {:?}", about(), short(&r), e)),
    };
    let (a, b) = (merged(&evs), merged(&model::events(&want)));
    if a != b {
        let at = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
        return fail(format!(
            "{}: the output {:?} reads differently at piece {}: {:?}, expected {:?}",
            about(),
            short(&r),
            at,
            a.get(at),
            b.get(at)
        ));
    }
    // the library's own parser
    let again = match interp::parse(&r) {
        Ok(t) => t,
        Err(e) => return fail(format!("{}: the output {:?} is rejected: {:?}", about(), short(&r), e)),
    };
    same_text("the output, parsed and rendered", &again.to_string(), &r)?;
    // and what it says is independent of how deep it is nested
    let d = model::depth(&want);
    let tight = Template::from_str(&r, ParseOptions::default().max_stack_depth(d));
    if tight.is_err() {
        return fail(format!("{}: the output is nested deeper than {}: {:?}", about(), d, tight));
    }
    ctx.note(|| format!("{} -> {:?}", about(), short(&r)));
    ctx.nontrivial(r != model::render(&f) && r.contains('<'));
    Ok(())
}
fn c22_random(ctx: &mut Ctx) -> Res { well_formed(ctx, &DocCfg::small(), &ProgCfg::default()) }
fn c22_any(ctx: &mut Ctx) -> Res { well_formed(ctx, &DocCfg::default(), &ProgCfg { tags: gen::TAGS.len(), depth: 2, ..ProgCfg::default() }) }
fn c22_raw(ctx: &mut Ctx) -> Res {
    let d = DocCfg { mix: [4, 6, 2, 4, 8, 3, 1], ..DocCfg::small() };
    let mut p = ProgCfg { depth: 2, ..ProgCfg::default() };
    p.frag = DocCfg { mix: [6, 1, 0, 1, 1, 1, 0], ..DocCfg::tiny() };
    well_formed(ctx, &d, &p)
}
fn c22_deep(ctx: &mut Ctx) -> Res {
    well_formed(ctx, &DocCfg::tiny(), &ProgCfg { depth: 4, s_ops: 2, e_ops: 3, max_items: 3, ..ProgCfg::default() })
}
fn c22_large(ctx: &mut Ctx) -> Res { well_formed(ctx, &large(), &ProgCfg { depth: 2, s_ops: 1, ..ProgCfg::default() }) }

// ---------------------------------------------------------------- C23

fn share(src: &mut Src, p: &mut SProg) {
    // draw from a copy of nothing: decisions are taken first, in order
    let n = crate::sites::count(p);
    let plan: Vec<(usize, usize)> = (0..n).map(|_| (src.below(5), src.below(8))).collect();
    let mut i = 0;
    crate::sites::sprog(p, &mut |site| {
        let (how, which) = plan[i];
        i += 1;
        if let crate::sites::Site::Content(c) = site {
            let by = [TmplBy::Ref, TmplBy::Owned, TmplBy::Rc, TmplBy::UserStream, TmplBy::RcCell][which % 5].clone();
            match how {
                0 | 1 => *c = Content::Shared(which, by),
                2 => {
                    *c = Content::Nested(
                        which,
                        Rc::new(vec![select(Scope::Any, false, tag_sel("a"), body(which)), SOp::Append(text("&"))]),
                    )
                }
                _ => {}
            }
        }
    });
}

fn c23_histories(ctx: &mut Ctx) -> Res {
    let mut pool: Vec<(Rc<Template>, Forest, String)> = Vec::new();
    let steps = ctx.src.range(2, 12);
    let mut changed = 0;
    let mut failed = 0;
    interp::meddle_from(ctx.src.below(40) as u32);
    for step in 0..steps {
        let what = if pool.is_empty() { 0 } else { ctx.src.below(7) };
        let at = ctx.src.below(8) % pool.len().max(1);
        let publish = |pool: &Vec<(Rc<Template>, Forest, String)>| {
            interp::set_shared(pool.iter().map(|p| p.0.clone()).collect());
            model::set_shared(pool.iter().map(|p| p.1.clone()).collect());
        };
        match what {
            0 => {
                let (s, f) = gen::doc(&mut ctx.src, &DocCfg::tiny());
                ctx.input(&s);
                let t = must_parse(&s)?;
                let r = model::render(&f);
                pool.push((Rc::new(t), f, r));
            }
            1 | 2 => {
                // a transform, with the templates of the history as contents, twice
                let cfg = ProgCfg { depth: 2, s_ops: 1, max_items: 3, ..ProgCfg::default() };
                let mut p = gen::sprog(&mut ctx.src, &cfg);
                share(&mut ctx.src, &mut p);
                ctx.input(&p);
                publish(&pool);
                let (t, f, s) = pool[at].clone();
                if f.len() > 300 {
                    continue;
                }
                let d = diff_parsed(ctx, &t, &s, &f, &p)?;
                let again = interp::transform(&t.as_ref().clone(), &p);
                let _ = model::take_calls();
                match (&d.out, &again) {
                    (Some(a), Ok(b)) => {
                        if a != b || a.to_string() != b.to_string() {
                            return fail(format!("the same transform of a clone gives {:?}, not {:?}", b.to_string(), a.to_string()));
                        }
                    }
                    (None, Err(_)) => {}
                    (a, b) => return fail(format!("the same transform of a clone gives {:?}, not {:?}", b, a)),
                }
                if let (Some(o), Ok(f)) = (d.out, d.result) {
                    let r = model::render(&f);
                    if r.len() < 4000 {
                        changed += usize::from(d.changed);
                        if pool.len() < 8 {
                            pool.push((Rc::new(o), f, r));
                        } else {
                            pool[at] = (Rc::new(o), f, r);
                        }
                    }
                }
            }
            3 => {
                // a failing transform
                let mut p = gen::sprog(&mut ctx.src, &ProgCfg { depth: 1, s_ops: 1, max_items: 2, ..ProgCfg::default() });
                share(&mut ctx.src, &mut p);
                let k = ctx.src.below(12);
                let broken = Content::Broken(Rc::new(("<a>x</a>".into(), vec![el("a", vec![Node::Text("x".into())])])), k);
                p.push(SOp::Append(broken));
                publish(&pool);
                let (t, f, s) = pool[at].clone();
                let d = diff_parsed(ctx, &t, &s, &f, &p)?;
                failed += usize::from(d.out.is_none());
            }
            4 => {
                let (t, f, r) = pool[at].clone();
                let t = Rc::new((*t).clone());
                if pool.len() < 8 {
                    pool.push((t, f, r));
                } else {
                    pool[at] = (t, f, r);
                }
            }
            5 => {
                // several streams of the pool's templates, read alternately
                let n = ctx.src.range(2, 4);
                let mut streams = Vec::new();
                for _ in 0..n {
                    let i = ctx.src.below(8) % pool.len();
                    let t = pool[i].0.clone();
                    let s: interp::DynStream = match ctx.src.below(4) {
                        0 => Box::new((&*t).into_stream()),
                        1 => Box::new(t.into_stream()),
                        2 => Box::new((*t).clone().into_stream()),
                        _ => {
                            let inner: interp::DynStream = Box::new((&*t).into_stream());
                            Box::new(Rc::new(std::cell::RefCell::new(inner)))
                        }
                    };
                    streams.push((i, s, String::new(), false));
                }
                while streams.iter().any(|s| !s.3) {
                    let k = ctx.src.below(n);
                    // finished streams stay finished
                    let k = if streams[k].3 && !ctx.src.chance(1, 3) {
                        streams.iter().position(|s| !s.3).unwrap()
                    } else {
                        k
                    };
                    match streams[k].1.next_event() {
                        Ok(Some(e)) => {
                            if streams[k].3 {
                                return fail(format!("a stream yields {:?} after its end", e));
                            }
                            streams[k].2.push_str(&e.to_string())
                        }
                        Ok(None) => streams[k].3 = true,
                        Err(e) => return fail(format!("the stream of a template fails: {:?}", e)),
                    }
                }
                for (i, _, got, _) in streams {
                    same_text("a stream read alternately with others", &got, &pool[i].2)?;
                }
            }
            _ => {
                // drop one; its relatives must not care
                if pool.len() > 1 {
                    pool.remove(at);
                }
            }
        }
        for (i, (t, _, r)) in pool.iter().enumerate() {
            same_text(&format!("template {} of the history after step {} (kind {})", i, step, what), &t.to_string(), r)?;
        }
    }
    interp::set_shared(vec![]);
    model::set_shared(vec![]);
    ctx.classify_if(failed > 0, "history with failures");
    ctx.classify_if(changed > 1, "history with 2+ effective transforms");
    ctx.nontrivial(changed + failed > 0);
    Ok(())
}

/// Values used in many places stay what they are.
/// User code panics in the middle of a transform, and the program goes on: templates and later
/// transforms are as if that had not been.
fn c23_panics(ctx: &mut Ctx) -> Res {
    interp::meddle_from(ctx.src.below(40) as u32);
    let (s, f) = doc(ctx, &DocCfg::tiny());
    let cfg = ProgCfg { depth: 2, s_ops: 2, max_items: 3, ..ProgCfg::default() };
    let mut p = gen::sprog(&mut ctx.src, &cfg);
    share(&mut ctx.src, &mut p);
    let (s2, f2) = gen::doc(&mut ctx.src, &DocCfg::tiny());
    let (t, t2) = (must_parse(&s)?, must_parse(&s2)?);
    interp::set_shared(vec![Rc::new(t2.clone()), Rc::new(t.clone())]);
    model::set_shared(vec![f2.clone(), f.clone()]);
    ctx.input(&s);
    ctx.input(&p);
    let before = diff_parsed(ctx, &t, &s, &f, &p)?;
    let text = model::render(&f);
    let rounds = ctx.src.range(1, 3);
    let mut panics = 0;
    for _ in 0..rounds {
        let n = ctx.src.range(1, 24) as u64;
        let r = interp::transform_giving_up(&t, &p, n);
        let _ = model::take_calls();
        match r {
            None => panics += 1,
            Some(Ok(t)) => {
                if before.out.as_ref().map(|o| *o == t) != Some(true) {
                    return fail(format!("the same transform gives {:?}", t.to_string()));
                }
            }
            Some(Err(e)) => {
                if before.out.is_some() {
                    return fail(format!("the same transform fails with {:?}", e));
                }
            }
        }
        same_text("the transformed template after a panic of a builder", &t.to_string(), &text)?;
        same_text("an inserted template after a panic of a builder", &t2.to_string(), &model::render(&f2))?;
        let again = diff_parsed(ctx, &t, &s, &f, &p)?;
        if again.out != before.out {
            return fail("the transform gives something else after a panic of a builder");
        }
        // and another template
        diff_parsed(ctx, &t2, &s2, &f2, &p)?;
    }
    ctx.classify_if(panics > 1, "more than one panic");
    ctx.nontrivial(panics > 0);
    Ok(())
}

fn c23_values(ctx: &mut Ctx) -> Res {
    use html5_fuser::text::{Data, Identifier, Value};
    let text = gen::plain(&mut ctx.src, 200);
    let n: Identifier = ctx.src.pick(&["k", "class", "id", "K"]).parse().unwrap();
    let spelled = n.to_string_();
    ctx.input(&text);
    let v = Value::from_unencoded_str(&text);
    let w = if ctx.src.chance(1, 2) { v.clone() } else { Value::from_unencoded_static_str("s<") };
    let d: Data = Data::from(v.clone());
    let (vt, wt) = (v.to_string(), w.to_string());
    let (s, f) = doc(ctx, &DocCfg { attrs: 2, ..DocCfg::tiny() });
    let mut t = must_parse(&s)?;
    let before = t.clone();
    let steps = ctx.src.range(1, 6);
    for _ in 0..steps {
        let how = ctx.src.below(6);
        let tag = gen::intern(gen::tag(&mut ctx.src, 4).split(|c| ".#".contains(c)).next().filter(|t| !t.is_empty()).unwrap_or("a"));
        let (v, w, d, n) = (v.clone(), w.clone(), d.clone(), n.clone());
        let old = t.clone();
        let shown = old.to_string();
        let r = t.transform(move |a| {
            a.select(tag, move |e| match how {
                0 => e.add_to_attribute(&n, &v, &w).into_boxed(),
                1 => e.set_attribute_with_value(&n, &v).into_boxed(),
                2 => e.prepend_contents(&v).append_contents(&d).into_boxed(),
                3 => {
                    let (v, w, n) = (v.clone(), w.clone(), n.clone());
                    e.repeat(0..2, move |e, _: i32| e.add_to_attribute(&n, &w, &v)).into_boxed()
                }
                4 => e.add_class(&n).add_to_attribute("class", &v, &v).into_boxed(),
                _ => e.replace_attribute_value_if_exists(&n, &w).into_boxed(),
            })
        });
        t = r.map_err(|e| Stop::Fail(format!("{:?}", e)))?;
        same_text("the transformed template itself", &old.to_string(), &shown)?;
        if old.to_string().len() > 20_000 {
            break;
        }
    }
    same_text("a value used as argument", &v.to_string(), &vt)?;
    same_text("a value used as argument", &w.to_string(), &wt)?;
    same_text("data used as argument", &d.to_string(), &vt)?;
    same_text("a name used as argument", &n.to_string_(), &spelled)?;
    same_text("the first template of the chain", &before.to_string(), &model::render(&f))?;
    ctx.nontrivial(t != before);
    Ok(())
}
trait Show {
    fn to_string_(&self) -> String;
}
impl<T: std::fmt::Display> Show for T {
    fn to_string_(&self) -> String { format!("{}", self) }
}

// ---------------------------------------------------------------- C26

fn respelled(src: &mut Src, s: &str) -> String {
    s.chars().map(|c| if src.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
}

fn c26_names(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let tag = match src.below(6) {
        0 => respelled(src, refparse::VOID[ctx.index as usize % refparse::VOID.len()]),
        1 => respelled(src, refparse::RAW[ctx.index as usize % refparse::RAW.len()]),
        2 => gen::tag(src, gen::TAGS.len()).to_string(),
        3 => (*src.pick(gen::BAD_NAMES)).to_string(),
        4 => {
            // near misses of void names
            let v = *src.pick(refparse::VOID);
            match src.below(3) {
                0 => format!("{}x", v),
                1 => v[..v.len() - 1].to_string(),
                _ => format!("x{}", v),
            }
        }
        _ => {
            let n = src.size(8, 300).max(1);
            (0..n).map(|_| *src.pick(&['a', 'Z', '-', '_', '9', ':', 'b', 'r'])).collect()
        }
    };
    ctx.input(&tag);
    let k = gen::intern(&tag);
    let got = match ctx.src.below(4) {
        0 => Template::with_element(k),
        1 => Template::with_element(tag.parse::<html5_fuser::text::Identifier>()),
        2 => match tag.parse::<html5_fuser::text::Identifier>() {
            Ok(i) => Template::with_element(i),
            Err(e) => Err(e),
        },
        _ => match tag.parse::<html5_fuser::text::Identifier>() {
            Ok(i) => Template::with_element(&i),
            Err(e) => Err(e),
        },
    };
    match (&got, check_ident(&tag)) {
        (Ok(t), Ok(())) => {
            let f = vec![Node::Elem(model::element(&tag))];
            same_text("a created element", &t.to_string(), &model::render(&f))?;
            // it is the element it says it is
            if !refparse::bang_name(&tag) && !tag.contains('\'') {
                let parsed = must_parse(&model::render(&f))?;
                if parsed != *t {
                    return fail(format!("a created {:?} is not equal to the parsed one: {:?} / {:?}", tag, t, parsed));
                }
            }
            ctx.classify(if gen::void_name(&tag) { "void" } else { "other" });
        }
        (Err(e), Err(w)) => {
            if refparse::ident_err(e) != w {
                return fail(format!("creating {:?} fails with {:?}, expected {:?}", tag, e, w));
            }
            ctx.classify("invalid name");
        }
        (g, w) => return fail(format!("creating {:?} gives {:?}, expected {:?}", tag, g, w)),
    }
    // the other constructor rejects the same names
    let other = Template::with_transformed_element(k, |e| e);
    match (&got, other) {
        (Ok(a), Ok(b)) if *a == b => {}
        (Err(e), Err(html5_fuser::StreamError::Identifier { error })) if *e == error => {}
        (a, b) => return fail(format!("with_element gives {:?}, with_transformed_element gives {:?}", a, b)),
    }
    ctx.note(|| format!("{:?}: {:?}", tag, got.map(|t| t.to_string())));
    ctx.nontrivial(tag.len() > 1);
    Ok(())
}

fn c26_programs(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let tag = match src.weighted(&[6, 3, 2]) {
        0 => gen::tag(src, 6),
        1 => gen::void(src),
        _ => gen::raw(src),
    };
    let mut p = gen::eprog(src, &ProgCfg::default());
    if src.chance(1, 10) {
        // with something wrong in it
        let mut sp = vec![SOp::Select { scope: Scope::Any, once: false, sel: tag_sel("a"), body: Rc::new(p) }];
        let n = crate::sites::count(&sp);
        let at = src.below(n);
        let bad = gen::bad_name(src);
        let mut i = 0;
        crate::sites::sprog(&mut sp, &mut |s| {
            if i == at {
                match s {
                    crate::sites::Site::Name(x) => *x = bad.clone(),
                    crate::sites::Site::Content(c) => *c = Content::Fail(model::Failure::Input("<a>")),
                    crate::sites::Site::Sel(s) => {
                        if i > 0 {
                            s.bad = true;
                            s.by = SelBy::Static;
                            s.text = "#";
                        }
                    }
                }
            }
            i += 1;
        });
        p = match sp.pop() {
            Some(SOp::Select { body, .. }) => (*body).clone(),
            _ => unreachable!(),
        };
    }
    ctx.input(&tag);
    ctx.input(&p);
    let env = Rc::new(vec![1i64]);
    let want = model::run_e(model::element(tag), &p, &env);
    if want == Err(MErr::TooLarge) {
        return Err(Stop::Excluded("the result is too large for the harness"));
    }
    let want_calls = model::take_calls();
    let got = Template::with_transformed_element(tag, |e| interp::run_e(e.into_boxed_element(), &p, &env));
    let got_calls = model::take_calls();
    // the long way round: select the same element of a template
    let long = Template::with_element(tag)
        .map_err(|e| Stop::Fail(format!("{:?}", e)))?
        .transform(|a| a.select_direct(interp::typed(&tag_sel(tag)), |e| interp::run_e(e.into_boxed_element(), &p, &env)));
    let _ = model::take_calls();
    let about = || format!("element {:?} by {}", tag, short(&format!("{:?}", p)));
    match (got, long, want) {
        (Ok(a), Ok(b), Ok(w)) => {
            same_text(&about(), &a.to_string(), &model::render(&w))?;
            same_text(&format!("{} by selection", about()), &b.to_string(), &model::render(&w))?;
            if a != b {
                return fail(format!("{}: not equal to transforming with_element", about()));
            }
            if want_calls != got_calls {
                return fail(format!("{}: builder calls {:?}, expected {:?}", about(), got_calls, want_calls));
            }
            ctx.note(|| format!("{} -> {:?}", about(), short(&a.to_string())));
            ctx.nontrivial(w != vec![Node::Elem(model::element(tag))]);
        }
        (Err(a), Err(b), Err(w)) => {
            if interp::stream_err(&a) != interp::MErr2::M(w.clone()) || format!("{:?}", a) != format!("{:?}", b) {
                return fail(format!("{}: fails with {:?} / {:?}, expected {:?}", about(), a, b, w));
            }
            ctx.classify("failing program");
            ctx.nontrivial(true);
        }
        (a, b, w) => return fail(format!("{}: {:?} / {:?}, expected {:?}", about(), a, b, w.map(|w| model::render(&w)))),
    }
    Ok(())
}

/// Created elements in use: inserted into documents, selected there, transformed on.
fn c26_in_use(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let tag = match src.weighted(&[6, 3, 2]) {
        0 => gen::tag(src, 6),
        1 => gen::void(src),
        _ => gen::raw(src),
    };
    let created = Template::with_element(tag).map_err(|e| Stop::Fail(format!("{:?}", e)))?;
    let parsed = must_parse(&model::render(&[Node::Elem(model::element(tag))]))?;
    let mut p = gen::sprog(&mut ctx.src, &ProgCfg { depth: 2, ..ProgCfg::default() });
    let hit = select(Scope::Any, ctx.src.chance(1, 2), Sel { by: SelBy::Typed, ..tag_sel(tag) }, {
        gen::eprog(&mut ctx.src, &ProgCfg { depth: 1, ..ProgCfg::default() })
    });
    let at = ctx.src.below(p.len() + 1);
    p.insert(at, hit);
    let f = vec![Node::Elem(model::element(tag))];
    ctx.input(&tag);
    ctx.input(&p);
    let s = model::render(&f);
    let a = diff_parsed(ctx, &created, &s, &f, &p)?;
    let b = diff_parsed(ctx, &parsed, &s, &f, &p)?;
    if let (Some(a), Some(b)) = (&a.out, &b.out) {
        if a != b {
            return fail(format!("created and parsed {:?} differ after {:?}", tag, p));
        }
    }
    ctx.nontrivial(a.changed);
    Ok(())
}

// ---------------------------------------------------------------- many equal pieces

/// Few operations, so that the results stay of a size.
fn few(p: ProgCfg) -> ProgCfg { ProgCfg { depth: 2, s_ops: 1, max_items: 2, ..p } }
fn c11_vast(ctx: &mut Ctx) -> Res { with_selections(ctx, &vast(), Some(Scope::Any), Some(false)) }
fn c12_vast(ctx: &mut Ctx) -> Res { with_selections(ctx, &vast(), None, Some(true)) }
fn c13_vast(ctx: &mut Ctx) -> Res { focused(ctx, &vast(), &few(c13_cfg())).map(|_| ()) }
fn c14_vast(ctx: &mut Ctx) -> Res { focused(ctx, &vast(), &few(c14_cfg())).map(|_| ()) }
fn c15_vast(ctx: &mut Ctx) -> Res { focused(ctx, &vast(), &ProgCfg { s_ops: 2, ..few(c15_cfg()) }).map(|_| ()) }
fn c16_vast(ctx: &mut Ctx) -> Res { focused(ctx, &vast(), &ProgCfg { e_ops: 3, ..few(c16_cfg()) }).map(|_| ()) }
fn c17_vast(ctx: &mut Ctx) -> Res {
    focused(ctx, &DocCfg { attrs: 2, class_heavy: true, ..vast() }, &ProgCfg { e_ops: 3, ..few(c17_cfg()) }).map(|_| ())
}
fn c18_vast(ctx: &mut Ctx) -> Res { focused(ctx, &vast(), &few(c18_cfg())).map(|_| ()) }
fn c19_vast(ctx: &mut Ctx) -> Res { focused(ctx, &vast(), &few(c19_cfg())).map(|_| ()) }
fn c20_vast(ctx: &mut Ctx) -> Res { focused(ctx, &vast(), &few(ProgCfg::default())).map(|_| ()) }
fn c22_vast(ctx: &mut Ctx) -> Res { well_formed(ctx, &vast(), &few(ProgCfg::default())) }

// ---------------------------------------------------------------- list

fn check(id: &'static str, rule: &'static str, parts: Vec<Part>) -> Check {
    Check { id, level: "exploration", rule, parts, assumptions: &[MODEL], findings: vec![], exhaustive_parts: &[EX, EX2] }
}
const MODEL: &str = "the tree model (harness/src/model.rs) states the meaning of the operations correctly";
const EX: &str = "all small documents";
const EX2: &str = "all short attribute lists";

fn ex(programs: u64, less: u32, run: CaseFn) -> Part { part(EX, forests(6 - less) * programs, forests(7 - less) * programs, run) }

/// F1: an element name with a single quote renders to text that does not parse.
fn f1_still_fails() -> bool {
    match Template::with_element("a'b") {
        Ok(t) => interp::parse(&t.to_string()).is_err(),
        Err(_) => false,
    }
}
fn f2_still_fails() -> bool {
    match Template::with_element("!--") {
        Ok(t) => interp::parse(&t.to_string()).is_err(),
        Err(_) => false,
    }
}

pub fn checks() -> Vec<Check> {
    let mut all = list();
    for c in all.iter_mut().filter(|c| c.id == "C22") {
        c.findings = vec![
            ("F1", "a created name with a single quote renders to text that is rejected: `<a'b></a'b>`", f1_still_fails),
            ("F2", "a created element named '!doctype' or '!--...' renders as doctype or comment: `<!--></!-->`", f2_still_fails),
        ];
    }
    all
}

fn list() -> Vec<Check> {
    vec![
        check(
            "C11",
            "every document of up to 6 (thorough 7) tokens with 48 selections, random documents (small vocabulary, so that matches nest) with random programs of unlimited selections at any depth, large documents; output and the multiset of builder calls compared with the tree model, and the elements given to the builder compared with the outermost matches. Non-trivial: some builder ran",
            vec![
                ex(C11_PROGRAMS, 0, c11_small),
                part("random", 400_000, 4_000_000, c11_random),
                part("elements given to the builder", 250_000, 2_500_000, c11_given),
                part("large documents", 16_000, 160_000, c11_large),
                part("many equal pieces", 3_000, 40_000, c11_vast),
            ],
        ),
        check(
            "C12",
            "every document of up to 6 (7) tokens with 56 programs of once-selections (alone, chained, nested, repeated), random documents and programs with all selections limited or mixed; compared with the tree model. Non-trivial: some builder ran",
            vec![
                ex(C12_PROGRAMS, 0, c12_small),
                part("random", 350_000, 3_500_000, c12_random),
                part("mixed with unlimited ones", 250_000, 2_500_000, c12_mixed),
                part("large documents", 16_000, 160_000, c12_large),
                part("many equal pieces", 3_000, 40_000, c12_vast),
            ],
        ),
        check(
            "C13",
            "every document of up to 6 (7) tokens with 32 programs of direct and sub selections, random documents and programs of these; compared with the tree model. Non-trivial: some builder ran or the output differs",
            vec![
                ex(C13_PROGRAMS, 0, c13_small),
                part("random", 350_000, 3_500_000, c13_random),
                part("direct selections", 250_000, 2_500_000, c13_direct),
                part("large documents", 12_000, 120_000, c13_large),
                part("many equal pieces", 3_000, 40_000, c13_vast),
            ],
        ),
        check(
            "C14",
            "every document of up to 5 (6) tokens with all single and all pairs of 13 content operations, random documents and programs of content operations; compared with the tree model. Non-trivial: the output differs or a builder ran",
            vec![
                ex(C14_PROGRAMS, 1, c14_small),
                part("random", 400_000, 4_000_000, c14_random),
                part("large documents", 16_000, 160_000, c14_large),
                part("many equal pieces", 3_000, 40_000, c14_vast),
            ],
        ),
        check(
            "C15",
            "every document of up to 5 (6) tokens with all single and all pairs of 13 stream operations and these on selected elements, random documents and programs; compared with the tree model. Non-trivial: the output differs or a builder ran",
            vec![
                ex(C15_PROGRAMS, 1, c15_small),
                part("random", 400_000, 4_000_000, c15_random),
                part("large documents", 16_000, 160_000, c15_large),
                part("many equal pieces", 3_000, 40_000, c15_vast),
            ],
        ),
        check(
            "C16",
            "every list of up to 4 of 6 attributes with 44 operations on the 3 kinds of elements, all pairs of operations on lists of up to 2, random documents and operation sequences, long attribute lists; compared with the tree model, with untouched neighbours around. Non-trivial: the output differs or a builder ran",
            vec![
                part(EX2, C16_SMALL, C16_SMALL, c16_small),
                part("all pairs of operations", C16_PAIRS, C16_PAIRS, c16_pairs),
                part("random", 400_000, 4_000_000, c16_random),
                part("long attribute lists", 120_000, 1_200_000, c16_long),
                part("many equal pieces", 3_000, 40_000, c16_vast),
            ],
        ),
        check(
            "C17",
            "every list of up to 3 of 8 class-like attributes with all pairs of 11 class and id operations, random class lists with arbitrary spacing, random documents; compared with the tree model, and the selector for the name tried on the result. Non-trivial: the output differs or a builder ran",
            vec![
                part(EX2, C17_SMALL, C17_SMALL, c17_small),
                part("random", 400_000, 4_000_000, c17_random),
                part("long class lists", 150_000, 1_500_000, c17_long),
                part("many equal pieces", 3_000, 40_000, c17_vast),
            ],
        ),
        check(
            "C18",
            "every document of up to 6 (7) tokens with 40 repetitions, random programs of nested repetitions, instrumented iterators (resuming after their end, wrong size hints), thousands of items; compared with the tree model, and the use of the iterator checked. Non-trivial: the output differs or a builder ran; not exactly one item",
            vec![
                ex(C18_PROGRAMS, 0, c18_small),
                part("random", 350_000, 3_500_000, c18_random),
                part("iterators", 150_000, 1_500_000, c18_iterators),
                part("many items", 6_000, 60_000, c18_many),
                part("many equal pieces", 3_000, 40_000, c18_vast),
            ],
        ),
        check(
            "C19",
            "every document of up to 6 (7) tokens with 20 conditional or boxing programs, random programs of these, and random programs compared with themselves after wrapping parts of them in transparent operations; compared with the tree model including the builders that ran. Non-trivial: the output differs or a builder ran",
            vec![
                ex(C19_PROGRAMS, 0, c19_small),
                part("random", 350_000, 3_500_000, c19_random),
                part("wrapped programs", 250_000, 2_500_000, c19_wrapped),
                part("many equal pieces", 3_000, 40_000, c19_vast),
            ],
        ),
        check(
            "C20",
            "every document of up to 4 (5) tokens with all pairs of 14 operations, random programs over the complete API (nested up to 5 deep), and chains applied at once or one by one; compared with the tree model and with each other. Non-trivial: the output differs or a builder ran",
            vec![
                ex(C20_PROGRAMS, 2, c20_pairs),
                part("random", 400_000, 4_500_000, c20_random),
                part("deeply nested programs", 60_000, 800_000, c20_deep),
                part("chains", 250_000, 2_500_000, c20_chain),
                part("large documents", 12_000, 120_000, c20_large),
                part("many equal pieces", 3_000, 40_000, c20_vast),
            ],
        ),
        check(
            "C22",
            "outputs of random programs over the complete API on random documents, read by the reference parser (same pieces as the model's result) and by the library (same rendering, no deeper nesting). Non-trivial: the output differs from the input and has markup",
            vec![
                part("random", 300_000, 3_000_000, c22_random),
                part("all names", 150_000, 1_500_000, c22_any),
                part("raw text elements", 250_000, 2_500_000, c22_raw),
                part("deeply nested programs", 60_000, 700_000, c22_deep),
                part("large documents", 10_000, 100_000, c22_large),
                part("many equal pieces", 3_000, 40_000, c22_vast),
            ],
        ),
        check(
            "C23",
            "histories over a pool of templates: parsing, transforms that insert pool members in all forms or results of transforms made meanwhile, failing transforms, clones, dropping, streams read alternately; after every step every member must render as the model says; values and names used repeatedly; transforms whose builders, iterators or contents panic, after which everything is as before. Non-trivial: some transform had an effect or failed, or a panic happened",
            vec![
                part("histories", 160_000, 1_600_000, c23_histories),
                part("values", 150_000, 1_500_000, c23_values),
                part("panicking builders", 120_000, 1_200_000, c23_panics),
            ],
        ),
        check(
            "C26",
            "elements created with void, raw, near-void, long and invalid names, builder programs (also failing ones) on created elements, and created against parsed elements under random programs; compared with the tree model and with each other. Non-trivial: 2+ bytes of name; the program changes the element or fails",
            vec![
                part("names", 200_000, 2_000_000, c26_names),
                part("builders", 300_000, 3_000_000, c26_programs),
                part("in use", 200_000, 2_000_000, c26_in_use),
            ],
        ),
    ]
}
