//! Runs a generated program against the real API.

use crate::model::*;
use html5_fuser::event::{Event, IntoStream, Stream, StreamError, StreamResult};
use html5_fuser::select::{Class, Classes, Id, Selector, Tag};
use html5_fuser::text::{Data, Identifier, IntoIdentifier, IntoValue, Value};
use html5_fuser::{Api, BoxedApi, BoxedElementApi, ElementStream, ParseOptions, Template};
use std::rc::Rc;

pub type DynStream = Box<dyn Stream>;

/// What user code may legally do with a stream: wrap it and pass its events through.
pub struct UserStream<S>(pub S);
impl<S: Stream> Stream for UserStream<S> {
    fn next_event(&mut self) -> StreamResult {
        meddle(0);
        self.0.next_event()
    }
}
impl<S: ElementStream> ElementStream for UserStream<S> {}

/// A user stream which fails instead of yielding its n-th event (or its end).
pub struct Broken<S>(pub S, pub usize);
impl<S: Stream> Stream for Broken<S> {
    fn next_event(&mut self) -> StreamResult {
        if self.1 == 0 {
            return Err(StreamError::from(html5_fuser::text::IdentifierError::Empty));
        }
        self.1 -= 1;
        self.0.next_event()
    }
}

/// A user stream over any events at all, in any order; endless polls after the end are fine.
pub struct Listed {
    events: Vec<Event>,
    at: usize,
}
impl Listed {
    pub fn new(events: Vec<Event>) -> Listed { Listed { events, at: 0 } }
}
impl Stream for Listed {
    fn next_event(&mut self) -> StreamResult {
        self.at += 1;
        Ok(self.events.get(self.at - 1).cloned())
    }
}

/// A user stream which ignores ends and errors of its source for a while.
pub struct Greedy {
    inner: DynStream,
    again: usize,
}
impl Stream for Greedy {
    fn next_event(&mut self) -> StreamResult {
        loop {
            match self.inner.next_event() {
                Ok(Some(event)) => return Ok(Some(event)),
                other => {
                    if self.again == 0 {
                        return other;
                    }
                    self.again -= 1;
                }
            }
        }
    }
}

/// All events of a template, after some edits (0 drop, 1 repeat, 2 swap, 3 cut off, 4 reverse,
/// 5 move to the end, 6 insert an empty event, 7 repeat many times).
pub fn mangle(t: &Template, edits: &[(u8, u16)]) -> Vec<Event> {
    let mut events = Vec::new();
    let mut s = t.into_stream();
    while let Ok(Some(e)) = s.next_event() {
        events.push(e);
    }
    for &(kind, at) in edits {
        if events.is_empty() {
            break;
        }
        let at = at as usize % events.len();
        match kind % 8 {
            0 => {
                events.remove(at);
            }
            1 => {
                let e = events[at].clone();
                events.insert(at, e);
            }
            2 => {
                let next = (at + 1) % events.len();
                events.swap(at, next);
            }
            3 => events.truncate(at),
            4 => events[at..].reverse(),
            5 => {
                let e = events.remove(at);
                events.push(e);
            }
            6 => {
                // a failed select yields no event; an empty one comes from an ended stream of `Ok`
                if let Some(noop) = noop() {
                    events.insert(at, noop);
                }
            }
            _ => {
                let e = events[at].clone();
                for _ in 0..9 {
                    events.insert(at, e.clone());
                }
            }
        }
    }
    events
}

/// An event without content, if some public stream yields one.
pub fn noop() -> Option<Event> {
    let r: Result<Template, StreamError> = parse("").map_err(StreamError::from);
    let mut s = r.into_stream();
    s.next_event().ok().and_then(|e| e)
}

pub fn parse(s: &str) -> Result<Template, html5_fuser::template::InputError> {
    Template::from_str(s, ParseOptions::default())
}

pub fn ident(s: &str) -> Result<Identifier, html5_fuser::text::IdentifierError> { s.parse() }

/// Value of an attribute; `Value` collects all supported kinds through `IntoValue`.
pub fn value(t: &TextSrc, env: &Env) -> Value {
    match t {
        TextSrc::Static(s) => (*s).into_value(),
        TextSrc::StaticValue(s) | TextSrc::StaticData(s) => Value::from_unencoded_static_str(s),
        TextSrc::OwnedValue(s) | TextSrc::OwnedData(s) => Value::from_unencoded_str(s).into_value(),
        TextSrc::RefValue(s) | TextSrc::RefData(s) => (&Value::from_unencoded_str(s.as_str())).into_value(),
        TextSrc::Int(ty, v) => match ty {
            0 => (*v as u8).into_value(),
            1 => (*v as u16).into_value(),
            2 => (*v as u32).into_value(),
            3 => (*v as u64).into_value(),
            4 => (*v as usize).into_value(),
            5 => (*v as i8).into_value(),
            6 => (*v as i16).into_value(),
            7 => (*v as i32).into_value(),
            8 => (*v as i64).into_value(),
            _ => (*v as isize).into_value(),
        },
        TextSrc::Env(d) => lookup(env, *d).into_value(),
    }
}

pub fn text_stream(t: &TextSrc, env: &Env) -> DynStream {
    fn b<S: IntoStream>(s: S) -> DynStream
    where
        S::Stream: 'static,
    {
        Box::new(s.into_stream())
    }
    match t {
        TextSrc::Static(s) => b(*s),
        TextSrc::StaticValue(s) => b(Value::from_unencoded_static_str(s)),
        TextSrc::OwnedValue(s) => b(Value::from_unencoded_str(s)),
        TextSrc::RefValue(s) => b(&Value::from_unencoded_str(s)),
        TextSrc::StaticData(s) => b(Data::from_unencoded_static_str(s)),
        TextSrc::OwnedData(s) => b(Data::from_unencoded_str(s)),
        TextSrc::RefData(s) => b(&Data::from_unencoded_str(s)),
        TextSrc::Int(ty, v) => {
            let v = *v;
            match ty {
                0 => b(v as u8),
                1 => b(v as u16),
                2 => b(v as u32),
                3 => b(v as u64),
                4 => b(v as usize),
                5 => b(v as i8),
                6 => b(v as i16),
                7 => b(v as i32),
                8 => b(v as i64),
                _ => b(v as isize),
            }
        }
        TextSrc::Env(d) => b(lookup(env, *d)),
    }
}

pub fn failing(f: &Failure) -> Result<Template, StreamError> {
    match f {
        Failure::Input(text) =>
            Template::from_str(text, ParseOptions::default()).map_err(StreamError::from),
        Failure::File => Template::from_file("/nonexistent/none.html", ParseOptions::default())
            .map_err(StreamError::from),
        Failure::Identifier(text) => Template::with_element(*text).map_err(StreamError::from),
    }
}

thread_local! {
    static SHARED: std::cell::RefCell<Vec<Rc<Template>>> = std::cell::RefCell::new(Vec::new());
}
/// The templates behind `Content::Shared`.
pub fn set_shared(v: Vec<Rc<Template>>) { SHARED.with(|s| *s.borrow_mut() = v) }
fn shared(n: usize) -> Rc<Template> {
    SHARED.with(|s| {
        let s = s.borrow();
        if s.is_empty() { Rc::new(parse("").expect("empty")) } else { s[n % s.len()].clone() }
    })
}

fn by(t: Rc<Template>, by: &TmplBy) -> DynStream {
    match by {
        TmplBy::Ref => Box::new((&*t).into_stream()),
        TmplBy::Owned => Box::new((*t).clone().into_stream()),
        TmplBy::Rc => Box::new(t.into_stream()),
        TmplBy::UserStream => Box::new(UserStream((&*t).into_stream()).into_stream()),
        TmplBy::RcCell => Box::new(Rc::new(std::cell::RefCell::new((&*t).into_stream())).into_stream()),
    }
}

pub fn stream(c: &Content, env: &Env) -> DynStream {
    if let Content::Greedy(_) = c {
        watch(|w| w.greedy = true);
    }
    Box::new(Watched { inner: content(c, env), over: false })
}

fn content(c: &Content, env: &Env) -> DynStream {
    match c {
        Content::Text(t) => text_stream(t, env),
        Content::Tmpl(t, how) => {
            let t = parse(&t.0).expect("fragment");
            match how {
                TmplBy::Owned => Box::new(t.into_stream()),
                how => by(Rc::new(t), how),
            }
        }
        Content::Shared(n, how) => by(shared(*n), how),
        Content::Nested(n, p) => Box::new(crate::model::untraced(|| transform(&shared(*n), p)).into_stream()),
        Content::Ok(c) => {
            let r: Result<DynStream, StreamError> = Ok(stream(c, env));
            Box::new(r.into_stream())
        }
        Content::Broken(t, at) => {
            let t = parse(&t.0).expect("fragment");
            Box::new(Broken((&t).into_stream(), *at))
        }
        Content::Mangled(t, edits) => {
            let t = parse(&t.0).expect("fragment");
            Box::new(Listed { events: mangle(&t, edits), at: 0 })
        }
        Content::Greedy(c) => Box::new(Greedy { inner: stream(c, env), again: 5 }),
        // the error values are handed over in their own types where possible
        Content::Fail(f) => match f {
            Failure::Input(text) =>
                Box::new(Template::from_str(text, ParseOptions::default()).into_stream()),
            Failure::File => Box::new(
                Template::from_file("/nonexistent/none.html", ParseOptions::default()).into_stream(),
            ),
            Failure::Identifier(text) => Box::new(Template::with_element(*text).into_stream()),
        },
    }
}

pub enum NameArg {
    Static(&'static str),
    Owned(Identifier),
    Result(Result<Identifier, html5_fuser::text::IdentifierError>),
}
impl IntoIdentifier for NameArg {
    fn into_identifier(self) -> Result<Identifier, html5_fuser::text::IdentifierError> {
        match self {
            NameArg::Static(s) => s.into_identifier(),
            NameArg::Owned(i) => i.into_identifier(),
            NameArg::Result(r) => r.into_identifier(),
        }
    }
}
pub struct RefName<'a>(&'a Identifier);
impl<'a> IntoIdentifier for RefName<'a> {
    fn into_identifier(self) -> Result<Identifier, html5_fuser::text::IdentifierError> {
        self.0.into_identifier()
    }
}

/// An identifier argument in one of the supported forms; an invalid name can only be handed
/// over as text or as a `Result`.
pub fn name(n: &Name) -> NameArg {
    match n.1 {
        NameBy::Static => NameArg::Static(n.0),
        NameBy::Result => NameArg::Result(ident(n.0)),
        NameBy::Owned => match ident(n.0) {
            Ok(i) => NameArg::Owned(i),
            Err(e) => NameArg::Result(Err(e)),
        },
        NameBy::Ref => match ident(n.0) {
            Ok(i) => NameArg::Result(RefName(&i).into_identifier()),
            Err(e) => NameArg::Result(Err(e)),
        },
    }
}

/// A conjunction of typed selectors, as user code would write it.
struct All(Vec<Box<dyn Selector>>);
impl Selector for All {
    fn matches(&self, event: &Event) -> bool { self.0.iter().all(|s| s.matches(event)) }
}
/// Asks about the text of tags.
struct Wish(u8);
impl Selector for Wish {
    fn matches(&self, event: &Event) -> bool { user_likes(self.0, &event.to_string()) }
}
pub struct BoxSel(Box<dyn Selector>);
impl Selector for BoxSel {
    fn matches(&self, event: &Event) -> bool { self.0.matches(event) }
}

/// Any of the forms of a selector argument, for the places which are not instantiated with each.
pub struct SelArg(Sel);
impl html5_fuser::select::IntoSelector for SelArg {
    type Error = StreamError;
    type Selector = BoxSel;
    fn into_selector(self) -> Result<BoxSel, StreamError> {
        match self.0.by {
            SelBy::Static =>
                self.0.text.into_selector().map(|s| BoxSel(Box::new(s))).map_err(StreamError::from),
            SelBy::Typed | SelBy::TypedResult | SelBy::User(_) => typed(&self.0),
            SelBy::TypedRc => typed(&self.0).map(|s| BoxSel(Box::new(Rc::new(s)))),
            SelBy::TypedRef => typed(&self.0).map(|s| {
                struct ByRef(BoxSel);
                impl Selector for ByRef {
                    fn matches(&self, event: &Event) -> bool { Selector::matches(&&self.0, event) }
                }
                BoxSel(Box::new(ByRef(s)))
            }),
        }
    }
}

pub fn typed(sel: &Sel) -> Result<BoxSel, StreamError> {
    let mut all: Vec<Box<dyn Selector>> = Vec::new();
    if let Some(t) = sel.tag {
        all.push(Box::new(t.parse::<Tag>()?));
    }
    if let Some(i) = sel.id {
        all.push(Box::new(i.parse::<Id>()?));
    }
    if sel.classes.len() == 1 {
        all.push(Box::new(sel.classes[0].parse::<Class>()?));
    } else if sel.classes.len() > 1 {
        all.push(Box::new(Classes::from_str_iterator(sel.classes.iter().cloned())?));
    }
    if let SelBy::User(what) = sel.by {
        all.push(Box::new(Wish(what)));
    }
    if all.len() == 1 {
        Ok(BoxSel(all.pop().unwrap()))
    } else {
        Ok(BoxSel(Box::new(All(all))))
    }
}

macro_rules! with_sel {
    ($sel:expr, |$s:ident| $body:expr) => {
        match $sel.by {
            SelBy::Static => {
                let $s = $sel.text;
                $body
            }
            SelBy::Typed => match typed($sel) {
                Ok($s) => $body,
                Err(e) => {
                    let $s: Result<BoxSel, StreamError> = Err(e);
                    $body
                }
            },
            SelBy::TypedResult | SelBy::User(_) => {
                let $s = typed($sel);
                $body
            }
            SelBy::TypedRc => match typed($sel) {
                Ok(s) => {
                    let $s = Rc::new(s);
                    $body
                }
                Err(e) => {
                    let $s: Result<BoxSel, StreamError> = Err(e);
                    $body
                }
            },
            SelBy::TypedRef => match typed($sel) {
                Ok(s) => {
                    // a reference to a selector owned by the selector argument itself
                    struct ByRef(BoxSel);
                    impl Selector for ByRef {
                        fn matches(&self, event: &Event) -> bool { Selector::matches(&&self.0, event) }
                    }
                    let $s = ByRef(s);
                    $body
                }
                Err(e) => {
                    let $s: Result<BoxSel, StreamError> = Err(e);
                    $body
                }
            },
        }
    };
}

pub struct Unfused {
    values: Vec<i64>,
    at: usize,
}
impl Iterator for Unfused {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        let at = self.at;
        self.at += 1;
        if at < self.values.len() {
            Some(self.values[at])
        } else if at == self.values.len() {
            None
        } else {
            Some(-77)
        }
    }
}

pub fn iter(items: &Items) -> Box<dyn Iterator<Item = i64>> {
    Box::new(WatchedItems(plain_iter(items)))
}

fn plain_iter(items: &Items) -> Box<dyn Iterator<Item = i64>> {
    match items.by {
        IterBy::Vec => Box::new(items.values.clone().into_iter()),
        // the generator only uses this form for consecutive values
        IterBy::Range => match items.values.first() {
            None => Box::new(0..0),
            Some(f) => Box::new(*f..*f + items.values.len() as i64),
        },
        IterBy::Filter => Box::new(items.values.clone().into_iter().filter(|_| true)),
        IterBy::Chain => {
            let (a, b) = items.values.split_at(items.values.len() / 2);
            let (a, b) = (a.to_vec(), b.to_vec());
            Box::new(a.into_iter().chain(b.into_iter().rev().rev()))
        }
        IterBy::Unfused => Box::new(Unfused { values: items.values.clone(), at: 0 }),
    }
}

/// What is known about the time of the calls of user code in one transform.
#[derive(Clone, Copy, Default)]
pub struct Watch {
    /// builders which are being run at the moment
    building: u32,
    /// some content has returned an error
    failed: bool,
    /// there is content that does not stop at errors
    pub greedy: bool,
    /// builders called, items taken and content read while the transform was running
    pub late: u64,
    /// the first call at a wrong time
    pub offence: Option<&'static str>,
    pub failures: u64,
}
thread_local! {
    static WATCH: std::cell::Cell<Watch> = std::cell::Cell::new(Watch::default());
}
fn watch<T>(f: impl FnOnce(&mut Watch) -> T) -> T {
    WATCH.with(|w| {
        let mut v = w.get();
        let out = f(&mut v);
        w.set(v);
        out
    })
}
/// Something that may only happen while the transform is running, and has not failed.
fn late(what: [&'static str; 2]) {
    give_up();
    watch(|w| {
        w.late += 1;
        if w.offence.is_none() && !w.greedy {
            if w.building > 0 {
                w.offence = Some(what[0]);
            } else if w.failed {
                w.offence = Some(what[1]);
            }
        }
    })
}
thread_local! {
    static GIVE_UP: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
/// What the user's code panics with.
pub struct UserPanic;
/// The n-th call of the user's code panics, when the program is run by `transform_giving_up`.
fn give_up() {
    let panics = GIVE_UP.with(|g| match g.get() {
        0 => false,
        n => {
            g.set(n - 1);
            n == 1
        }
    });
    if panics {
        std::panic::resume_unwind(Box::new(UserPanic));
    }
}
/// Runs a program of which the n-th call of a builder, iterator or content stream panics; `None`
/// when it did.
pub fn transform_giving_up(template: &Template, prog: &[SOp], n: u64) -> Option<Result<Template, StreamError>> {
    let outer = watch(|w| *w);
    GIVE_UP.with(|g| g.set(n));
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| transform(template, prog)));
    GIVE_UP.with(|g| g.set(0));
    match out {
        Ok(r) => Some(r),
        Err(what) if what.is::<UserPanic>() => {
            watch(|w| *w = outer);
            MEDDLE.with(|m| m.set((m.get().0, false)));
            None
        }
        Err(other) => std::panic::resume_unwind(other),
    }
}

/// A builder is running as long as this lives.
struct Building;
impl Building {
    fn new() -> Building {
        watch(|w| w.building += 1);
        Building
    }
}
impl Drop for Building {
    fn drop(&mut self) { watch(|w| w.building = w.building.saturating_sub(1)) }
}
/// Start over, and get what has been seen.
pub fn take_watch() -> Watch { watch(std::mem::take) }

/// The stream of some content.
struct Watched {
    inner: DynStream,
    over: bool,
}
impl Stream for Watched {
    fn next_event(&mut self) -> StreamResult {
        late([
            "content is read while the chain of operations is built",
            "content is read after the transform has failed",
        ]);
        if self.over {
            watch(|w| if w.offence.is_none() && !w.greedy {
                w.offence = Some("content is read again after its end");
            });
        }
        let out = self.inner.next_event();
        match out {
            Ok(Some(_)) => (),
            Ok(None) => self.over = true,
            Err(_) => watch(|w| {
                w.failed = true;
                w.failures += 1;
            }),
        }
        out
    }
}
/// The items of a repetition.
struct WatchedItems(Box<dyn Iterator<Item = i64>>);
impl Iterator for WatchedItems {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        late([
            "an item is taken while the chain of operations is built",
            "an item is taken after the transform has failed",
        ]);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}

/// A builder is called for an element or an item.
fn called_late(kind: &'static str, value: i64) {
    late([
        "a builder is called while the chain of operations is built",
        "a builder is called after the transform has failed",
    ]);
    called(kind, value);
}

/// A builder of the program is entered.
fn called(kind: &'static str, value: i64) {
    crate::model::called(kind, value);
    meddle(value);
}

thread_local! {
    static MEDDLE: std::cell::Cell<(u32, bool)> = std::cell::Cell::new((0, false));
}
/// Start of the turns of `meddle`.
pub fn meddle_from(n: u32) { MEDDLE.with(|m| m.set((n, false))) }
/// Now and then, builders and streams use the library for something else in between, as user code
/// does; what comes of that is known, and nobody else must notice.
fn meddle(value: i64) {
    let (turn, busy) = MEDDLE.with(|m| m.get());
    if busy {
        return;
    }
    let next = turn.wrapping_add(1 + (value as u32 & 7));
    MEDDLE.with(|m| m.set((next, true)));
    if turn % 5 == 0 {
        meddle_now(turn / 5 % 8);
    }
    MEDDLE.with(|m| m.set((next, false)));
}
fn meddle_now(what: u32) {
    let ok = |r: Result<Template, StreamError>, want: &str| match r {
        Ok(t) if t.to_string() == want => (),
        other => panic!("a transform inside a builder gives {:?}, expected {:?}", other.map(|t| t.to_string()), want),
    };
    let err = |r: Result<Template, StreamError>| {
        if let Ok(t) = r {
            panic!("a transform inside a builder must fail, but gives {:?}", t.to_string());
        }
    };
    let t = || parse("<p k=\"1\">x<b class=\"y z\">&lt;</b></p><!--c--><br>").expect("valid text inside a builder");
    let bad = || Template::from_str("<i>1</i><x", ParseOptions::default());
    match what {
        0 => {
            if let Ok(t) = bad() {
                panic!("a defective text is parsed inside a builder: {:?}", t.to_string());
            }
        }
        // failing late, after some events
        1 => err(t().transform(|h| h.append(bad()))),
        2 => ok(
            t().transform(|h| h.select("p", |e| e.add_class("q").repeat(0..2, |c, n: i64| c.append(n)))),
            "<p k=\"1\" class=\"q\">x<b class=\"y z\">&lt;</b></p>0<p k=\"1\" class=\"q\">x<b class=\"y z\">&lt;</b></p>1<!--c--><br>",
        ),
        3 => err(t().transform(|h| h.select("b", |e| e.repeat_contents(0..4, |c, n: i64| {
            c.append(if n < 2 { t().transform(|h| h.remove()).map_err(StreamError::from) } else { bad().map_err(StreamError::from) })
        })))),
        4 => err(t().transform(|h| h.select("b", |e| e.add_attribute("a b", Some("v"))))),
        5 => ok(t().transform(|h| h.apply_as_template(|t| t.transform(|h| h.select_once("b.y", |e| e.replace_contents("<"))))),
            "<p k=\"1\">x<b class=\"y z\">&lt;</b></p><!--c--><br>"),
        6 => {
            // a stream that is dropped in the middle
            let t = t();
            let mut s = (&t).into_stream();
            let _ = s.next_event();
            let _ = s.next_event();
        }
        _ => ok(
            Template::with_transformed_element("p", |e| e.append_contents("&").set_id("n")),
            "<p id=\"n\">&amp;</p>",
        ),
    }
}

fn at<T>(kind: &'static str, value: i64, f: impl FnOnce() -> T) -> T {
    called(kind, value);
    f()
}

fn at_late<T>(kind: &'static str, value: i64, f: impl FnOnce() -> T) -> T {
    called_late(kind, value);
    f()
}

thread_local! {
    static FUEL: std::cell::Cell<u64> = std::cell::Cell::new(u64::MAX);
}
/// Limits the number of operations built by programs the model does not run first; the later
/// ones are left out.
pub struct Fuel(());
impl Fuel {
    pub fn new(n: u64) -> Fuel {
        FUEL.with(|f| f.set(n));
        Fuel(())
    }
}
impl Drop for Fuel {
    fn drop(&mut self) { FUEL.with(|f| f.set(u64::MAX)) }
}
fn burn() -> bool {
    FUEL.with(|f| match f.get() {
        u64::MAX => true,
        0 => false,
        n => {
            f.set(n - 1);
            true
        }
    })
}

macro_rules! counted {
    ($body:expr, $env:expr) => {{
        let (body, env) = ($body.clone(), $env.clone());
        let mut n = 0i64;
        (body, env, move || {
            let k = n;
            n += 1;
            k
        })
    }};
}

macro_rules! any_sel {
    ($sel:expr, |$s:ident| $body:expr) => {{
        let $s = SelArg($sel.clone());
        $body
    }};
}

macro_rules! do_select {
    ($with:ident, $api:expr, $sel:expr, $body:expr, $env:expr, $many:ident, $once:ident, $is_once:expr, $run:ident, |$r:ident| $fin:expr) => {{
        let (body, env, mut tick) = counted!($body, $env);
        let kind = stringify!($many);
        let kind = if kind.starts_with("sub") { "subselect" } else { "select" };
        if $is_once {
            $with!($sel, |s| {
                let $r = $api.$once(s, move |e| {
                    let n = tick();
                    called_late(kind, n);
                    $run(e, &body, &bind(&env, n))
                });
                $fin
            })
        } else {
            $with!($sel, |s| {
                let $r = $api.$many(s, move |e| {
                    let n = tick();
                    called_late(kind, n);
                    $run(e, &body, &bind(&env, n))
                });
                $fin
            })
        }
    }};
}

thread_local! {
    static TURN: std::cell::Cell<u32> = std::cell::Cell::new(0);
}
/// Operations are chained in two ways, as users do: boxed in between, or directly on the stream
/// type the operation before has made. They take turns, the same way in every run of a program.
fn direct() -> bool {
    TURN.with(|t| {
        t.set(t.get().wrapping_add(1));
        t.get() % 3 != 0
    })
}

pub fn run_s<'t>(mut api: BoxedApi<'t>, prog: &[SOp], env: &Env) -> BoxedApi<'t> {
    let _building = Building::new();
    let mut rest = prog;
    while let Some((op, more)) = rest.split_first() {
        if !burn() {
            break;
        }
        let (next, more) = match more.split_first() {
            Some((next, more)) if direct() && burn() => (Some(next), more),
            _ => (None, more),
        };
        api = run_sop(api, op, next, env);
        rest = more;
    }
    api
}

/// `run_s` on a stream of any type.
fn enter_s<'t, S: Stream + 'static>(api: Api<'t, S>, prog: &[SOp], env: &Env) -> BoxedApi<'t> {
    let _building = Building::new();
    match prog.split_first() {
        Some((first, rest)) if direct() && burn() => run_s(then_s(api, Some(first), env), rest, env),
        _ => run_s(api.into_boxed(), prog, env),
    }
}

/// `run_e` on a stream of any type.
fn enter_e<'t, S: ElementStream + 'static>(api: Api<'t, S>, prog: &EProg, env: &Env) -> BoxedApi<'t> {
    let _building = Building::new();
    match prog.ops.split_first() {
        Some((first, rest)) if direct() && burn() =>
            finish_e(then_e(api, Some(first), env), rest, prog, env),
        _ => run_e(api.into_boxed_element(), prog, env),
    }
}

/// The next operation, if there is one, directly on a stream of any type. The streams its builders
/// get are always boxed, or there would be no end to the types.
fn then_s<'t, S: Stream + 'static>(api: Api<'t, S>, next: Option<&SOp>, env: &Env) -> BoxedApi<'t> {
    let op = match next {
        Some(op) => op,
        None => return api.into_boxed(),
    };
    match op {
        SOp::Remove => api.remove().into_boxed(),
        SOp::Prepend(c) => api.prepend(stream(c, env)).into_boxed(),
        SOp::Append(c) => api.append(stream(c, env)).into_boxed(),
        SOp::Replace(c) => api.replace(stream(c, env)).into_boxed(),
        SOp::Select { scope: Scope::Any, once, sel, body } =>
            do_select!(any_sel, api, sel, body, env, select, select_once, *once, boxed_e, |r| r.into_boxed()),
        SOp::Repeat(items, body) => {
            let (body, env) = (body.clone(), env.clone());
            api.repeat(iter(items), move |s, v: i64| {
                called_late("repeat", v);
                run_s(s.into_boxed(), &body, &bind(&env, v))
            })
            .into_boxed()
        }
        SOp::ApplyIf(c, p) => {
            api.apply_if(*c, |s| at("then", 0, || run_s(s.into_boxed(), p, env))).into_boxed()
        }
        SOp::ApplyTemplate(p) => {
            let (p, env) = (p.clone(), env.clone());
            api.apply_as_template(move |t| {
                called_late("apply", 0);
                t.transform(|s| enter_s(s, &p, &env))
            })
            .into_boxed()
        }
        SOp::ApplyBoxed(p) => api.apply_as_boxed(|s| at("apply", 0, || run_s(s, p, env))),
        other => run_sop(api.into_boxed(), other, None, env),
    }
}

fn boxed_e<'t, S: ElementStream + 'static>(api: Api<'t, S>, prog: &EProg, env: &Env) -> BoxedApi<'t> {
    let _building = Building::new();
    run_e(api.into_boxed_element(), prog, env)
}

/// Like `then_s` for elements.
fn then_e<'t, S: ElementStream + 'static>(
    api: Api<'t, S>,
    next: Option<&EOp>,
    env: &Env,
) -> BoxedElementApi<'t> {
    let op = match next {
        Some(op) => op,
        None => return api.into_boxed_element(),
    };
    match op {
        EOp::SetAttr(n, v) =>
            api.set_attribute(name(n), v.as_ref().map(|v| value(v, env))).into_boxed_element(),
        EOp::AddClass(n) => api.add_class(name(n)).into_boxed_element(),
        EOp::AppendContents(c) => api.append_contents(stream(c, env)).into_boxed_element(),
        EOp::ReplaceContents(c) => api.replace_contents(stream(c, env)).into_boxed_element(),
        EOp::SubSelect { scope: Scope::Direct, once, sel, body } => do_select!(
            any_sel, api, sel, body, env, subselect_direct, subselect_direct_once, *once,
            boxed_e, |r| r.into_boxed_element()
        ),
        EOp::RepeatContents(items, body) => {
            let (body, env) = (body.clone(), env.clone());
            api.repeat_contents(iter(items), move |s, v: i64| {
                called_late("repeat contents", v);
                run_s(s.into_boxed(), &body, &bind(&env, v))
            })
            .into_boxed_element()
        }
        EOp::ApplyIf(c, p) => api
            .apply_if(*c, |e| at("then", 0, || run_eops(e.into_boxed_element(), p, env)))
            .into_boxed_element(),
        EOp::ApplyBoxedElement(p) => {
            api.apply_as_boxed_element(|e| at("apply", 0, || run_eops(e, p, env)))
        }
        other => run_eop(api.into_boxed_element(), other, None, env),
    }
}

pub fn run_sop<'t>(api: BoxedApi<'t>, op: &SOp, next: Option<&SOp>, env: &Env) -> BoxedApi<'t> {
    let outer = env;
    match op {
        SOp::Remove => then_s(api.remove(), next, outer),
        SOp::Prepend(c) => then_s(api.prepend(stream(c, env)), next, outer),
        SOp::Append(c) => then_s(api.append(stream(c, env)), next, outer),
        SOp::Replace(c) => then_s(api.replace(stream(c, env)), next, outer),
        SOp::Select { scope, once, sel, body } => match scope {
            // one kind of selector argument suffices for what follows
            Scope::Any if next.is_some() =>
                do_select!(any_sel, api, sel, body, env, select, select_once, *once, enter_e, |r| then_s(r, next, outer)),
            Scope::Any =>
                do_select!(with_sel, api, sel, body, env, select, select_once, *once, enter_e, |r| r.into_boxed()),
            Scope::Direct => {
                do_select!(any_sel, api, sel, body, env, select_direct, select_direct_once, *once, enter_e, |r| then_s(r, next, outer))
            }
        },
        SOp::Repeat(items, body) => {
            let (body, env) = (body.clone(), env.clone());
            then_s(api.repeat(iter(items), move |s, v: i64| {
                called_late("repeat", v);
                enter_s(s, &body, &bind(&env, v))
            }), next, outer)
        }
        SOp::RepeatOrElse(items, body, or_else) => {
            let (body, or_else, env, env2) = (body.clone(), or_else.clone(), env.clone(), env.clone());
            then_s(api.repeat_or_else(
                iter(items),
                move |s, v: i64| {
                    called_late("repeat", v);
                    enter_s(s, &body, &bind(&env, v))
                },
                move |s| {
                    called_late("repeat else", 0);
                    run_s(s, &or_else, &env2)
                },
            ), next, outer)
        }
        SOp::Apply(p) => {
            let (p, env) = (p.clone(), env.clone());
            then_s(api.apply(|s| at("apply", 0, || run_s(s, &p, &env))), next, outer)
        }
        SOp::ApplyIf(c, p) => then_s(api.apply_if(*c, |s| at("then", 0, || run_s(s, p, env))), next, outer),
        SOp::ApplyIfElse(c, p, q) => then_s(api
            .apply_if_else(
                *c,
                |s| at("then", 0, || run_s(s, p, env)),
                |s| at("else", 0, || run_s(s, q, env)),
            ), next, outer),
        SOp::ApplyOption(v, p, q) => then_s(api
            .apply_with_option(
                *v,
                |s, v| at("some", v, || run_s(s, p, &bind(env, v))),
                |s| at("none", 0, || run_s(s, q, env)),
            ), next, outer),
        SOp::ApplyResult(v, p, q) => then_s(api
            .apply_with_result(
                *v,
                |s, v| at("ok", v, || run_s(s, p, &bind(env, v))),
                |s, v| at("err", v, || run_s(s, q, &bind(env, v))),
            ), next, outer),
        SOp::ApplyBoxed(p) => then_s(api.apply_as_boxed(|s| at("apply", 0, || run_s(s, p, env))), next, outer),
        SOp::ApplyTemplate(p) => {
            let (p, env) = (p.clone(), env.clone());
            then_s(api.apply_as_template(move |t| {
                called_late("apply", 0);
                t.transform(|s| enter_s(s, &p, &env))
            }), next, outer)
        }
        SOp::IntoBoxed => then_s(api.into_boxed(), next, outer),
    }
}

pub fn run_e<'t>(api: BoxedElementApi<'t>, prog: &EProg, env: &Env) -> BoxedApi<'t> {
    finish_e(api, &prog.ops, prog, env)
}

/// The last of the operations of `prog`, and what follows.
fn finish_e<'t>(api: BoxedElementApi<'t>, ops: &[EOp], prog: &EProg, env: &Env) -> BoxedApi<'t> {
    let api = run_eops(api, ops, env);
    let api: BoxedApi<'t> = match &prog.tail {
        ETail::None => api.into_boxed(),
        ETail::Stream(op) => match op {
            // call the stream operations on the element stream itself
            SOp::Remove => api.remove().into_boxed(),
            SOp::Prepend(c) => api.prepend(stream(c, env)).into_boxed(),
            SOp::Append(c) => api.append(stream(c, env)).into_boxed(),
            SOp::Replace(c) => api.replace(stream(c, env)).into_boxed(),
            SOp::Select { scope, once, sel, body } => match scope {
                Scope::Any => do_select!(any_sel, api, sel, body, env, select, select_once, *once, enter_e, |r| r.into_boxed()),
                Scope::Direct => {
                    do_select!(any_sel, api, sel, body, env, select_direct, select_direct_once, *once, enter_e, |r| r.into_boxed())
                }
            },
            SOp::ApplyTemplate(p) => {
                let (p, env) = (p.clone(), env.clone());
                api.apply_as_template(move |t| {
                    called_late("apply", 0);
                    t.transform(|s| enter_s(s, &p, &env))
                })
                .into_boxed()
            }
            other => then_s(api, Some(other), env),
        },
        ETail::Repeat(items, body) => {
            let (body, env) = (body.clone(), env.clone());
            api.repeat(iter(items), move |s, v: i64| {
                called_late("repeat", v);
                enter_e(s, &body, &bind(&env, v))
            })
            .into_boxed()
        }
        ETail::RepeatOrElse(items, body, or_else) => {
            let (body, or_else, env, env2) = (body.clone(), or_else.clone(), env.clone(), env.clone());
            api.repeat_or_else(
                iter(items),
                move |s, v: i64| {
                    called_late("repeat", v);
                    enter_e(s, &body, &bind(&env, v))
                },
                move |s| {
                    called_late("repeat else", 0);
                    run_e(s, &or_else, &env2)
                },
            )
            .into_boxed()
        }
        ETail::RepeatContentsOrElse(items, body, or_else) => {
            let (body, or_else, env, env2) = (body.clone(), or_else.clone(), env.clone(), env.clone());
            api.repeat_contents_or_else(
                iter(items),
                move |s, v: i64| {
                    called_late("repeat contents", v);
                    enter_s(s, &body, &bind(&env, v))
                },
                move |s| {
                    called_late("repeat else", 0);
                    run_e(s, &or_else, &env2)
                },
            )
            .into_boxed()
        }
        ETail::Apply(p) => api.apply(|s| at("apply", 0, || run_e(s, p, env))),
        ETail::ApplyIf(c, p) => api.apply_if(*c, |s| at("then", 0, || run_e(s, p, env))).into_boxed(),
        ETail::ApplyBoxed(p) => api.apply_as_boxed(|s| at("apply", 0, || run_s(s, p, env))),
    };
    run_s(api, &prog.rest, env)
}

pub fn run_eops<'t>(mut api: BoxedElementApi<'t>, ops: &[EOp], env: &Env) -> BoxedElementApi<'t> {
    let _building = Building::new();
    let mut rest = ops;
    while let Some((op, more)) = rest.split_first() {
        if !burn() {
            break;
        }
        let (next, more) = match more.split_first() {
            Some((next, more)) if direct() && burn() => (Some(next), more),
            _ => (None, more),
        };
        api = run_eop(api, op, next, env);
        rest = more;
    }
    api
}

pub fn run_eop<'t>(api: BoxedElementApi<'t>, op: &EOp, next: Option<&EOp>, env: &Env) -> BoxedElementApi<'t> {
    let outer = env;
    // attribute values go in as text where they are plain text, otherwise through `value`
    macro_rules! val {
        ($t:expr, |$v:ident| $body:expr) => {
            match $t {
                TextSrc::Static(s) => {
                    let $v: &'static str = s;
                    then_e($body, next, outer)
                }
                TextSrc::Int(ty, n) =>
                    then_e(int_dispatch!(*ty, *n, |$v| $body.into_boxed_element()), next, outer),
                TextSrc::RefValue(s) => {
                    let held = Value::from_unencoded_str(s);
                    let $v = &held;
                    then_e($body, next, outer)
                }
                other => {
                    let $v = value(other, env);
                    then_e($body, next, outer)
                }
            }
        };
    }
    // `int_dispatch!` needs a closure usable at several types, which closures are not
    macro_rules! int_dispatch {
        ($ty:expr, $n:expr, |$v:ident| $body:expr) => {
            match $ty {
                0 => { let $v = $n as u8; $body }
                1 => { let $v = $n as u16; $body }
                2 => { let $v = $n as u32; $body }
                3 => { let $v = $n as u64; $body }
                4 => { let $v = $n as usize; $body }
                5 => { let $v = $n as i8; $body }
                6 => { let $v = $n as i16; $body }
                7 => { let $v = $n as i32; $body }
                8 => { let $v = $n as i64; $body }
                _ => { let $v = $n as isize; $body }
            }
        };
    }
    match op {
        EOp::AddAttr(n, v) =>
            then_e(api.add_attribute(name(n), v.as_ref().map(|v| value(v, env))), next, outer),
        EOp::AddAttrValue(n, v) => val!(v, |v| api.add_attribute_with_value(name(n), v)),
        EOp::AddEmpty(n) => then_e(api.add_empty_attribute(name(n)), next, outer),
        EOp::AddTo(n, v, sep) => {
            let sep = value(sep, env);
            val!(v, |v| api.add_to_attribute(name(n), v, sep))
        }
        EOp::ReplaceIfExists(n, v) => val!(v, |v| api.replace_attribute_value_if_exists(name(n), v)),
        EOp::SetAttr(n, v) =>
            then_e(api.set_attribute(name(n), v.as_ref().map(|v| value(v, env))), next, outer),
        EOp::SetAttrValue(n, v) => val!(v, |v| api.set_attribute_with_value(name(n), v)),
        EOp::SetEmpty(n) => then_e(api.set_empty_attribute(name(n)), next, outer),
        EOp::RemoveAttr(n) => then_e(api.remove_attribute(name(n)), next, outer),
        EOp::AddClass(n) => then_e(api.add_class(name(n)), next, outer),
        EOp::RemoveClass(n) => then_e(api.remove_class(name(n)), next, outer),
        EOp::SetId(n) => then_e(api.set_id(name(n)), next, outer),
        EOp::RemoveId => then_e(api.remove_id(), next, outer),
        EOp::RemoveContents => then_e(api.remove_contents(), next, outer),
        EOp::PrependContents(c) => then_e(api.prepend_contents(stream(c, env)), next, outer),
        EOp::AppendContents(c) => then_e(api.append_contents(stream(c, env)), next, outer),
        EOp::ReplaceContents(c) => then_e(api.replace_contents(stream(c, env)), next, outer),
        EOp::SubSelectContents(p) => {
            let (p, env) = (p.clone(), env.clone());
            then_e(api.subselect_contents(move |s| at_late("contents", 0, || enter_s(s, &p, &env))), next, outer)
        }
        EOp::SubSelect { scope, once, sel, body } => match scope {
            Scope::Any if next.is_some() => do_select!(
                any_sel, api, sel, body, env, subselect, subselect_once, *once, enter_e, |r| then_e(r, next, outer)
            ),
            Scope::Any => do_select!(
                with_sel, api, sel, body, env, subselect, subselect_once, *once, enter_e, |r| r.into_boxed_element()
            ),
            Scope::Direct => do_select!(
                any_sel, api, sel, body, env, subselect_direct, subselect_direct_once, *once, enter_e, |r| then_e(r, next, outer)),
        },
        EOp::RepeatContents(items, body) => {
            let (body, env) = (body.clone(), env.clone());
            then_e(api.repeat_contents(iter(items), move |s, v: i64| {
                called_late("repeat contents", v);
                enter_s(s, &body, &bind(&env, v))
            }), next, outer)
        }
        EOp::Apply(p) => then_e(api.apply(|e| at("apply", 0, || run_eops(e, p, env))), next, outer),
        EOp::ApplyIf(c, p) =>
            then_e(api.apply_if(*c, |e| at("then", 0, || run_eops(e, p, env))), next, outer),
        EOp::ApplyIfElse(c, p, q) => then_e(api
            .apply_if_else(
                *c,
                |e| at("then", 0, || run_eops(e, p, env)),
                |e| at("else", 0, || run_eops(e, q, env)),
            ), next, outer),
        EOp::ApplyOption(v, p, q) => then_e(api
            .apply_with_option(
                *v,
                |e, v| at("some", v, || run_eops(e, p, &bind(env, v))),
                |e| at("none", 0, || run_eops(e, q, env)),
            ), next, outer),
        EOp::ApplyResult(v, p, q) => then_e(api
            .apply_with_result(
                *v,
                |e, v| at("ok", v, || run_eops(e, p, &bind(env, v))),
                |e, v| at("err", v, || run_eops(e, q, &bind(env, v))),
            ), next, outer),
        EOp::ApplyBoxedElement(p) => {
            then_e(api.apply_as_boxed_element(|e| at("apply", 0, || run_eops(e, p, env))), next, outer)
        }
        EOp::IntoBoxedElement => then_e(api.into_boxed_element(), next, outer),
    }
}

pub fn root_env() -> Env { Rc::new(Vec::new()) }

/// Transform `template` by `prog` with the real API.
pub fn transform(template: &Template, prog: &[SOp]) -> Result<Template, StreamError> {
    TURN.with(|t| t.set(0));
    let outer = watch(|w| {
        let outer = *w;
        w.building = 0;
        w.failed = false;
        outer
    });
    let out = template.transform(|api| enter_s(api, prog, &root_env()));
    watch(|w| {
        w.building = outer.building;
        w.failed = outer.failed;
    });
    out
}

pub fn stream_err(e: &StreamError) -> MErr2 {
    match e {
        StreamError::Assertion { .. } => MErr2::Assertion,
        StreamError::Input { .. } => MErr2::M(MErr::Input),
        StreamError::File { .. } => MErr2::M(MErr::File),
        StreamError::Identifier { .. } => MErr2::M(MErr::Identifier),
        StreamError::Selector { .. } => MErr2::M(MErr::Selector),
        StreamError::StaticSelector { .. } => MErr2::M(MErr::StaticSelector),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MErr2 {
    Assertion,
    M(MErr),
}
