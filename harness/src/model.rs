//! Reference model: documents as ordered trees, and the meaning of every API operation on them.
//! The library works on event streams; nothing of that design is used here.

use crate::refparse::{self, encode, is_void, same, Attrs, Ev};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Open,
    SelfClosed,
    Void,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Elem {
    pub tag: String,
    /// Spelling of the closing tag (only for `Kind::Open`).
    pub close: String,
    pub attrs: Attrs,
    pub kind: Kind,
    pub kids: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Text(String),
    Raw(String),
    Comment(String),
    Doctype(String),
    Elem(Elem),
}

pub type Forest = Vec<Node>;

pub fn events(forest: &[Node]) -> Vec<Ev> {
    fn go(nodes: &[Node], out: &mut Vec<Ev>) {
        for n in nodes {
            match n {
                Node::Text(t) => out.push(Ev::Text(t.clone())),
                Node::Raw(t) => out.push(Ev::Raw(t.clone())),
                Node::Comment(t) => out.push(Ev::Comment(t.clone())),
                Node::Doctype(t) => out.push(Ev::Doctype(t.clone())),
                Node::Elem(e) => match e.kind {
                    Kind::Void => out.push(Ev::Void(e.tag.clone(), e.attrs.clone())),
                    Kind::SelfClosed => out.push(Ev::SelfClosed(e.tag.clone(), e.attrs.clone())),
                    Kind::Open => {
                        out.push(Ev::Open(e.tag.clone(), e.attrs.clone()));
                        go(&e.kids, out);
                        out.push(Ev::Close(e.close.clone()));
                    }
                },
            }
        }
    }
    let mut out = Vec::new();
    go(forest, &mut out);
    out
}

pub fn render(forest: &[Node]) -> String { refparse::render(&events(forest)) }

pub fn tree(evs: &[Ev]) -> Forest {
    let mut stack: Vec<(Elem, Forest)> = Vec::new();
    let mut cur: Forest = Vec::new();
    for ev in evs {
        match ev {
            Ev::Text(t) => cur.push(Node::Text(t.clone())),
            Ev::Raw(t) => cur.push(Node::Raw(t.clone())),
            Ev::Comment(t) => cur.push(Node::Comment(t.clone())),
            Ev::Doctype(t) => cur.push(Node::Doctype(t.clone())),
            Ev::Void(t, a) => cur.push(Node::Elem(Elem {
                tag: t.clone(),
                close: String::new(),
                attrs: a.clone(),
                kind: Kind::Void,
                kids: vec![],
            })),
            Ev::SelfClosed(t, a) => cur.push(Node::Elem(Elem {
                tag: t.clone(),
                close: String::new(),
                attrs: a.clone(),
                kind: Kind::SelfClosed,
                kids: vec![],
            })),
            Ev::Open(t, a) => {
                let elem = Elem {
                    tag: t.clone(),
                    close: String::new(),
                    attrs: a.clone(),
                    kind: Kind::Open,
                    kids: vec![],
                };
                stack.push((elem, std::mem::take(&mut cur)));
            }
            Ev::Close(t) => {
                let (mut elem, outer) = stack.pop().expect("balanced");
                elem.close = t.clone();
                elem.kids = std::mem::replace(&mut cur, outer);
                cur.push(Node::Elem(elem));
            }
        }
    }
    assert!(stack.is_empty(), "balanced");
    cur
}

// ---------------------------------------------------------------- programs

/// Where the text of content or of an attribute value comes from; all must behave alike.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TextSrc {
    Static(&'static str),
    StaticValue(&'static str),
    OwnedValue(String),
    RefValue(String),
    StaticData(&'static str),
    OwnedData(String),
    RefData(String),
    /// An integer of one of the ten supported types (type index, value).
    Int(u8, i128),
    /// The number bound by the n-th enclosing builder call (innermost is 0), as an `i64`.
    Env(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TmplBy {
    Ref,
    Owned,
    Rc,
    /// A user-defined `Stream` around the template's stream.
    UserStream,
    /// A stream behind a shared mutable pointer.
    RcCell,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Failure {
    /// Text that is not a valid template.
    Input(&'static str),
    /// A file that does not exist.
    File,
    /// An identifier that is not valid.
    Identifier(&'static str),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Content {
    Text(TextSrc),
    Tmpl(Rc<(String, Forest)>, TmplBy),
    /// `Ok(content)` of a `Result`.
    Ok(Box<Content>),
    Fail(Failure),
    /// A user stream over a template which fails instead of yielding its n-th event.
    Broken(Rc<(String, Forest)>, usize),
    /// One of the templates of the current history.
    Shared(usize, TmplBy),
    /// The result of another transform of such a template, made while this one is running.
    Nested(usize, Rc<SProg>),
    /// A user stream yielding the events of a template in an edited order; each edit is a kind
    /// and a place. The model has no meaning for these.
    Mangled(Rc<(String, Forest)>, Vec<(u8, u16)>),
    /// A user stream which keeps polling its source after it ended or failed.
    Greedy(Box<Content>),
}

thread_local! {
    static SHARED: std::cell::RefCell<Vec<Forest>> = std::cell::RefCell::new(Vec::new());
}
pub fn set_shared(v: Vec<Forest>) { SHARED.with(|s| *s.borrow_mut() = v) }
fn shared(n: usize) -> Forest {
    SHARED.with(|s| {
        let s = s.borrow();
        if s.is_empty() { vec![] } else { s[n % s.len()].clone() }
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum NameBy {
    Static,
    Owned,
    Ref,
    Result,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Name(pub &'static str, pub NameBy);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SelBy {
    Static,
    /// The dedicated selector types (`Tag`, `Id`, `Class`, `Classes`).
    Typed,
    TypedResult,
    TypedRc,
    TypedRef,
    /// A selector of the user, which asks for more: something about the text of the tag.
    User(u8),
}

/// What the selectors of the user ask about a tag.
pub fn user_likes(what: u8, tag: &str) -> bool {
    match what % USER_WISHES {
        0 => tag.contains('"'),
        1 => !tag.contains('='),
        2 => tag.ends_with("/>"),
        3 => tag.len() % 2 == 0,
        4 => tag.contains('x'),
        _ => tag.bytes().map(|b| b as usize).sum::<usize>() % 3 != 0,
    }
}
pub const USER_WISHES: u8 = 6;
/// The text of the first tag of an element.
pub fn start_tag(e: &Elem) -> String {
    let (tag, attrs) = (e.tag.clone(), e.attrs.clone());
    refparse::render(&[match e.kind {
        Kind::Void => Ev::Void(tag, attrs),
        Kind::SelfClosed => Ev::SelfClosed(tag, attrs),
        Kind::Open => Ev::Open(tag, attrs),
    }])
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sel {
    pub tag: Option<&'static str>,
    pub id: Option<&'static str>,
    pub classes: Vec<&'static str>,
    pub by: SelBy,
    /// The text of a static selector (also when it is invalid).
    pub text: &'static str,
    /// A static or typed selector that does not parse.
    pub bad: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IterBy {
    Vec,
    Range,
    /// A hand-written iterator without size hint which yields again after its first `None`.
    Unfused,
    /// Iterators whose size hints are not exact.
    Filter,
    Chain,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Items {
    pub values: Vec<i64>,
    pub by: IterBy,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Scope {
    Any,
    Direct,
}

/// Operations on any stream.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SOp {
    Remove,
    Prepend(Content),
    Append(Content),
    Replace(Content),
    Select { scope: Scope, once: bool, sel: Sel, body: Rc<EProg> },
    Repeat(Items, Rc<SProg>),
    RepeatOrElse(Items, Rc<SProg>, Rc<SProg>),
    Apply(Rc<SProg>),
    ApplyIf(bool, Rc<SProg>),
    ApplyIfElse(bool, Rc<SProg>, Rc<SProg>),
    ApplyOption(Option<i64>, Rc<SProg>, Rc<SProg>),
    ApplyResult(Result<i64, i64>, Rc<SProg>, Rc<SProg>),
    ApplyBoxed(Rc<SProg>),
    ApplyTemplate(Rc<SProg>),
    IntoBoxed,
}
pub type SProg = Vec<SOp>;

/// Operations on a single element, which leave a single element.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum EOp {
    AddAttr(Name, Option<TextSrc>),
    AddAttrValue(Name, TextSrc),
    AddEmpty(Name),
    AddTo(Name, TextSrc, TextSrc),
    ReplaceIfExists(Name, TextSrc),
    SetAttr(Name, Option<TextSrc>),
    SetAttrValue(Name, TextSrc),
    SetEmpty(Name),
    RemoveAttr(Name),
    AddClass(Name),
    RemoveClass(Name),
    SetId(Name),
    RemoveId,
    RemoveContents,
    PrependContents(Content),
    AppendContents(Content),
    ReplaceContents(Content),
    SubSelectContents(Rc<SProg>),
    SubSelect { scope: Scope, once: bool, sel: Sel, body: Rc<EProg> },
    RepeatContents(Items, Rc<SProg>),
    Apply(Rc<Vec<EOp>>),
    ApplyIf(bool, Rc<Vec<EOp>>),
    ApplyIfElse(bool, Rc<Vec<EOp>>, Rc<Vec<EOp>>),
    ApplyOption(Option<i64>, Rc<Vec<EOp>>, Rc<Vec<EOp>>),
    ApplyResult(Result<i64, i64>, Rc<Vec<EOp>>, Rc<Vec<EOp>>),
    ApplyBoxedElement(Rc<Vec<EOp>>),
    IntoBoxedElement,
}

/// How a builder for an element leaves the element state.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ETail {
    None,
    /// Plain stream operations on the element.
    Stream(SOp),
    Repeat(Items, Rc<EProg>),
    RepeatOrElse(Items, Rc<EProg>, Rc<EProg>),
    RepeatContentsOrElse(Items, Rc<SProg>, Rc<EProg>),
    Apply(Rc<EProg>),
    ApplyIf(bool, Rc<EProg>),
    ApplyBoxed(Rc<SProg>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct EProg {
    pub ops: Vec<EOp>,
    pub tail: ETail,
    pub rest: SProg,
}

// ---------------------------------------------------------------- builder calls

thread_local! {
    static TRACE: std::cell::RefCell<Vec<(&'static str, i64)>> = std::cell::RefCell::new(Vec::new());
}
/// Later calls are not recorded; the lists must then not be compared.
pub const MAX_CALLS: usize = 2_000_000;
/// Record one call of a user-supplied builder (used by the model and by the interpreter).
pub fn called(kind: &'static str, value: i64) {
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() < MAX_CALLS {
            t.push((kind, value))
        }
    })
}
thread_local! {
    static WORK: std::cell::Cell<usize> = std::cell::Cell::new(0);
    static SIZE: std::cell::Cell<usize> = std::cell::Cell::new(0);
    static LIMIT: std::cell::Cell<usize> = std::cell::Cell::new(150_000);
}
/// How much is looked at in one run, so that a case stays far from the time limits.
fn worked(n: usize) -> M<()> {
    let n = WORK.with(|s| {
        s.set(s.get() + n);
        s.get()
    });
    if n / 15 > LIMIT.with(|l| l.get()) { Err(MErr::TooLarge) } else { Ok(()) }
}
/// How many nodes repetitions may build on this thread before a case is set aside.
pub fn set_limit(n: usize) { LIMIT.with(|l| l.set(n)) }
fn sized(f: Forest) -> M<Forest> {
    let n = SIZE.with(|s| {
        s.set(s.get() + 1 + count_nodes(&f));
        s.get()
    });
    if n > LIMIT.with(|l| l.get()) { Err(MErr::TooLarge) } else { Ok(f) }
}
fn count_nodes(f: &[Node]) -> usize {
    f.iter().map(|n| if let Node::Elem(e) = n { 1 + count_nodes(&e.kids) } else { 1 }).sum()
}
/// The calls since the last time, as a sorted list.
/// What runs inside is not noted (a nested transform may or may not be needed for the result).
pub fn untraced<T>(f: impl FnOnce() -> T) -> T {
    let n = TRACE.with(|t| t.borrow().len());
    let out = f();
    TRACE.with(|t| t.borrow_mut().truncate(n));
    out
}
pub fn take_calls() -> Vec<(&'static str, i64)> {
    SIZE.with(|s| s.set(0));
    WORK.with(|s| s.set(0));
    let mut v = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
    v.sort();
    v
}

// ---------------------------------------------------------------- meaning

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MErr {
    Identifier,
    Selector,
    StaticSelector,
    Input,
    File,
    /// not an error of the library: the result is larger than this harness wants to handle
    TooLarge,
}

type M<T> = Result<T, MErr>;

/// Numbers bound by the enclosing builders, innermost last.
pub type Env = Rc<Vec<i64>>;

pub fn bind(env: &Env, v: i64) -> Env {
    let mut e = (**env).clone();
    e.push(v);
    Rc::new(e)
}
pub fn lookup(env: &Env, depth: u8) -> i64 {
    if env.is_empty() {
        return -1;
    }
    env[env.len() - 1 - (depth as usize % env.len())]
}

pub fn text_of(t: &TextSrc, env: &Env) -> String {
    match t {
        TextSrc::Static(s) | TextSrc::StaticValue(s) | TextSrc::StaticData(s) => encode(s),
        TextSrc::OwnedValue(s) | TextSrc::RefValue(s) | TextSrc::OwnedData(s) | TextSrc::RefData(s) =>
            encode(s),
        TextSrc::Int(_, v) => v.to_string(),
        TextSrc::Env(d) => lookup(env, *d).to_string(),
    }
}

pub fn content_of(c: &Content, env: &Env) -> M<Forest> {
    match c {
        Content::Text(t) => {
            let t = text_of(t, env);
            Ok(vec![Node::Text(t)])
        }
        Content::Tmpl(t, _) => Ok(t.1.clone()),
        Content::Ok(c) => content_of(c, env),
        // the events and the end of the stream count
        Content::Broken(t, at) => if *at <= events(&t.1).len() {
            Err(MErr::Identifier)
        } else {
            Ok(t.1.clone())
        },
        // no meaning in the model: never compared
        Content::Mangled(..) | Content::Greedy(..) => Err(MErr::TooLarge),
        Content::Shared(n, _) => Ok(shared(*n)),
        Content::Nested(n, p) => untraced(|| run_s(shared(*n), p, &Rc::new(vec![]))),
        Content::Fail(f) => Err(match f {
            Failure::Input(_) => MErr::Input,
            Failure::File => MErr::File,
            Failure::Identifier(_) => MErr::Identifier,
        }),
    }
}

fn name_of(n: &Name) -> M<&'static str> {
    refparse::check_ident(n.0).map(|_| n.0).map_err(|_| MErr::Identifier)
}

pub fn class_list(attrs: &Attrs) -> Vec<&str> {
    let mut out = Vec::new();
    for (n, v) in attrs {
        if same(n, "class") {
            if let Some(v) = v {
                out.extend(v.split(char::is_whitespace).filter(|s| !s.is_empty()));
            }
        }
    }
    out
}

pub fn sel_matches(sel: &Sel, e: &Elem) -> bool {
    if let Some(t) = sel.tag {
        if !same(t, &e.tag) {
            return false;
        }
    }
    if let Some(id) = sel.id {
        let hit = e.attrs.iter().any(|(n, v)| match v {
            Some(v) => same(n, "id") && same(v, id),
            None => false,
        });
        if !hit {
            return false;
        }
    }
    if let SelBy::User(what) = sel.by {
        if !user_likes(what, &start_tag(e)) {
            return false;
        }
    }
    if sel.classes.is_empty() {
        return true;
    }
    let classes = class_list(&e.attrs);
    sel.classes.iter().all(|c| classes.iter().any(|x| same(x, c)))
}

fn check_sel(sel: &Sel) -> M<()> {
    if sel.bad {
        Err(if sel.by == SelBy::Static { MErr::StaticSelector } else { MErr::Selector })
    } else {
        Ok(())
    }
}

/// Outermost matches in document order; each is handed to `f`, which yields its replacement.
fn select(
    nodes: Forest,
    scope: Scope,
    once: bool,
    sel: &Sel,
    count: &mut i64,
    f: &mut dyn FnMut(Elem, i64) -> M<Forest>,
) -> M<Forest> {
    let mut out = Vec::with_capacity(nodes.len());
    for node in nodes {
        match node {
            Node::Elem(mut e) => {
                worked(1 + e.attrs.iter().map(|(_, v)| 1 + v.as_ref().map_or(0, |v| v.len() / 8)).sum::<usize>())?;
                if sel_matches(sel, &e) && !(once && *count > 0) {
                    let n = *count;
                    *count += 1;
                    out.extend(f(e, n)?);
                } else {
                    if scope == Scope::Any && e.kind == Kind::Open {
                        e.kids = select(e.kids, scope, once, sel, count, f)?;
                    }
                    out.push(Node::Elem(e));
                }
            }
            other => out.push(other),
        }
    }
    Ok(out)
}

fn expand(e: &mut Elem) {
    if e.kind == Kind::SelfClosed {
        e.kind = Kind::Open;
        e.close = e.tag.clone();
    }
}

pub fn run_s(mut nodes: Forest, prog: &[SOp], env: &Env) -> M<Forest> {
    for op in prog {
        nodes = run_sop(nodes, op, env)?;
    }
    Ok(nodes)
}

pub fn run_sop(nodes: Forest, op: &SOp, env: &Env) -> M<Forest> {
    Ok(match op {
        SOp::Remove => vec![],
        SOp::Prepend(c) => {
            let mut out = content_of(c, env)?;
            out.extend(nodes);
            out
        }
        SOp::Append(c) => {
            let mut out = nodes;
            out.extend(content_of(c, env)?);
            out
        }
        SOp::Replace(c) => content_of(c, env)?,
        SOp::Select { scope, once, sel, body } => {
            check_sel(sel)?;
            let mut count = 0;
            select(nodes, *scope, *once, sel, &mut count, &mut |e, n| {
                called("select", n);
                run_e(e, body, &bind(env, n))
            })?
        }
        SOp::Repeat(items, body) => {
            let mut out = Vec::new();
            for v in &items.values {
                called("repeat", *v);
                out.extend(sized(run_s(nodes.clone(), body, &bind(env, *v))?)?);
            }
            out
        }
        SOp::RepeatOrElse(items, body, or_else) =>
            if items.values.is_empty() {
                called("repeat else", 0);
                run_s(nodes, or_else, env)?
            } else {
                run_sop(nodes, &SOp::Repeat(items.clone(), body.clone()), env)?
            },
        SOp::Apply(p) | SOp::ApplyBoxed(p) | SOp::ApplyTemplate(p) => {
            called("apply", 0);
            run_s(nodes, p, env)?
        }
        SOp::ApplyIf(c, p) => if *c {
            called("then", 0);
            run_s(nodes, p, env)?
        } else {
            nodes
        },
        SOp::ApplyIfElse(c, p, q) => {
            called(if *c { "then" } else { "else" }, 0);
            run_s(nodes, if *c { p } else { q }, env)?
        }
        SOp::ApplyOption(v, p, q) => match v {
            Some(v) => {
                called("some", *v);
                run_s(nodes, p, &bind(env, *v))?
            }
            None => {
                called("none", 0);
                run_s(nodes, q, env)?
            }
        },
        SOp::ApplyResult(v, p, q) => match v {
            Ok(v) => {
                called("ok", *v);
                run_s(nodes, p, &bind(env, *v))?
            }
            Err(v) => {
                called("err", *v);
                run_s(nodes, q, &bind(env, *v))?
            }
        },
        SOp::IntoBoxed => nodes,
    })
}

pub fn run_e(e: Elem, prog: &EProg, env: &Env) -> M<Forest> {
    let e = run_eops(e, &prog.ops, env)?;
    let nodes = match &prog.tail {
        ETail::None => vec![Node::Elem(e)],
        ETail::Stream(op) => run_sop(vec![Node::Elem(e)], op, env)?,
        ETail::Repeat(items, body) => {
            let mut out = Vec::new();
            for v in &items.values {
                called("repeat", *v);
                out.extend(sized(run_e(e.clone(), body, &bind(env, *v))?)?);
            }
            out
        }
        ETail::RepeatOrElse(items, body, or_else) =>
            if items.values.is_empty() {
                called("repeat else", 0);
                run_e(e, or_else, env)?
            } else {
                let mut out = Vec::new();
                for v in &items.values {
                    called("repeat", *v);
                out.extend(sized(run_e(e.clone(), body, &bind(env, *v))?)?);
                }
                out
            },
        ETail::RepeatContentsOrElse(items, body, or_else) =>
            if items.values.is_empty() {
                called("repeat else", 0);
                run_e(e, or_else, env)?
            } else {
                vec![Node::Elem(run_eop(e, &EOp::RepeatContents(items.clone(), body.clone()), env)?)]
            },
        ETail::Apply(p) => {
            called("apply", 0);
            run_e(e, p, env)?
        }
        ETail::ApplyIf(c, p) => if *c {
            called("then", 0);
            run_e(e, p, env)?
        } else {
            vec![Node::Elem(e)]
        },
        ETail::ApplyBoxed(p) => {
            called("apply", 0);
            run_s(vec![Node::Elem(e)], p, env)?
        }
    };
    run_s(nodes, &prog.rest, env)
}

pub fn run_eops(mut e: Elem, ops: &[EOp], env: &Env) -> M<Elem> {
    for op in ops {
        e = run_eop(e, op, env)?;
    }
    Ok(e)
}

/// Content operations do nothing on void elements and open up self-closed ones.
fn contents(mut e: Elem, f: &mut dyn FnMut(Forest) -> M<Forest>) -> M<Elem> {
    if e.kind == Kind::Void {
        return Ok(e);
    }
    expand(&mut e);
    e.kids = f(std::mem::take(&mut e.kids))?;
    Ok(e)
}

pub fn run_eop(mut e: Elem, op: &EOp, env: &Env) -> M<Elem> {
    let val = |t: &TextSrc| text_of(t, env);
    match op {
        EOp::AddAttr(n, v) => {
            let n = name_of(n)?;
            e.attrs.push((n.to_string(), v.as_ref().map(val)));
        }
        EOp::AddAttrValue(n, v) => {
            let n = name_of(n)?;
            e.attrs.push((n.to_string(), Some(val(v))));
        }
        EOp::AddEmpty(n) => {
            let n = name_of(n)?;
            e.attrs.push((n.to_string(), None));
        }
        EOp::AddTo(n, v, sep) => {
            let n = name_of(n)?;
            add_to(&mut e.attrs, n, &val(v), &val(sep));
        }
        EOp::AddClass(n) => {
            let n = name_of(n)?;
            add_to(&mut e.attrs, "class", n, " ");
        }
        EOp::ReplaceIfExists(n, v) => {
            let n = name_of(n)?;
            let before = e.attrs.len();
            e.attrs.retain(|(x, _)| !same(x, n));
            if e.attrs.len() != before {
                e.attrs.push((n.to_string(), Some(val(v))));
            }
        }
        EOp::SetAttr(n, v) => {
            let n = name_of(n)?;
            e.attrs.retain(|(x, _)| !same(x, n));
            e.attrs.push((n.to_string(), v.as_ref().map(val)));
        }
        EOp::SetAttrValue(n, v) => {
            let n = name_of(n)?;
            e.attrs.retain(|(x, _)| !same(x, n));
            e.attrs.push((n.to_string(), Some(val(v))));
        }
        EOp::SetEmpty(n) => {
            let n = name_of(n)?;
            e.attrs.retain(|(x, _)| !same(x, n));
            e.attrs.push((n.to_string(), None));
        }
        EOp::RemoveAttr(n) => {
            let n = name_of(n)?;
            e.attrs.retain(|(x, _)| !same(x, n));
        }
        EOp::SetId(n) => {
            let n = name_of(n)?;
            e.attrs.retain(|(x, _)| !same(x, "id"));
            e.attrs.push(("id".to_string(), Some(n.to_string())));
        }
        EOp::RemoveId => e.attrs.retain(|(x, _)| !same(x, "id")),
        EOp::RemoveClass(n) => {
            let n = name_of(n)?;
            let mut out = Vec::new();
            for (name, value) in e.attrs {
                let hit = match &value {
                    Some(v) => same(&name, "class") && v.split_whitespace().any(|c| same(c, n)),
                    None => false,
                };
                if !hit {
                    out.push((name, value));
                    continue;
                }
                let kept: Vec<&str> = value
                    .as_ref()
                    .map(|v| v.split_whitespace().filter(|c| !same(c, n)).collect())
                    .unwrap_or_default();
                if !kept.is_empty() {
                    out.push((name, Some(kept.join(" "))));
                }
            }
            e.attrs = out;
        }
        EOp::RemoveContents => return contents(e, &mut |_| Ok(vec![])),
        EOp::PrependContents(c) => {
            return contents(e, &mut |kids| {
                let mut out = content_of(c, env)?;
                out.extend(kids);
                Ok(out)
            })
        }
        EOp::AppendContents(c) => {
            return contents(e, &mut |mut kids| {
                kids.extend(content_of(c, env)?);
                Ok(kids)
            })
        }
        EOp::ReplaceContents(c) => return contents(e, &mut |_| content_of(c, env)),
        EOp::SubSelectContents(p) => {
            return contents(e, &mut |kids| {
                called("contents", 0);
                run_s(kids, p, env)
            })
        }
        EOp::SubSelect { scope, once, sel, body } => {
            check_sel(sel)?;
            return contents(e, &mut |kids| {
                let mut count = 0;
                select(kids, *scope, *once, sel, &mut count, &mut |e, n| {
                    called("subselect", n);
                    run_e(e, body, &bind(env, n))
                })
            });
        }
        EOp::RepeatContents(items, body) => {
            return contents(e, &mut |kids| {
                let mut out = Vec::new();
                for v in &items.values {
                    called("repeat contents", *v);
                    out.extend(sized(run_s(kids.clone(), body, &bind(env, *v))?)?);
                }
                Ok(out)
            })
        }
        EOp::Apply(p) | EOp::ApplyBoxedElement(p) => {
            called("apply", 0);
            return run_eops(e, p, env);
        }
        EOp::ApplyIf(c, p) => if *c {
            called("then", 0);
            return run_eops(e, p, env);
        },
        EOp::ApplyIfElse(c, p, q) => {
            called(if *c { "then" } else { "else" }, 0);
            return run_eops(e, if *c { p } else { q }, env);
        }
        EOp::ApplyOption(v, p, q) => {
            return match v {
                Some(v) => {
                    called("some", *v);
                    run_eops(e, p, &bind(env, *v))
                }
                None => {
                    called("none", 0);
                    run_eops(e, q, env)
                }
            }
        }
        EOp::ApplyResult(v, p, q) => {
            return match v {
                Ok(v) => {
                    called("ok", *v);
                    run_eops(e, p, &bind(env, *v))
                }
                Err(v) => {
                    called("err", *v);
                    run_eops(e, q, &bind(env, *v))
                }
            }
        }
        EOp::IntoBoxedElement => {}
    }
    Ok(e)
}

fn add_to(attrs: &mut Attrs, name: &str, value: &str, sep: &str) {
    for (n, v) in attrs.iter_mut() {
        if same(n, name) {
            *v = Some(match v.take() {
                Some(old) => format!("{}{}{}", old, sep, value),
                None => value.to_string(),
            });
            return;
        }
    }
    attrs.push((name.to_string(), Some(value.to_string())));
}

pub fn element(tag: &str) -> Elem {
    Elem {
        tag: tag.to_string(),
        close: String::new(),
        attrs: vec![],
        kind: if is_void(tag) { Kind::Void } else { Kind::SelfClosed },
        kids: vec![],
    }
}

pub fn count_elems(f: &[Node]) -> usize {
    f.iter()
        .map(|n| match n {
            Node::Elem(e) => 1 + count_elems(&e.kids),
            _ => 0,
        })
        .sum()
}
pub fn depth(f: &[Node]) -> usize {
    f.iter()
        .map(|n| match n {
            Node::Elem(e) => 1 + depth(&e.kids),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}
