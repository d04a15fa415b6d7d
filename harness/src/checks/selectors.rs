//! C10: which events a selector matches.

use super::*;
use crate::gen::DocCfg;
use crate::refparse::{check_ident, same, Ev, IdentErr};
use html5_fuser::event::{self, Event, IntoStream, Stream};
use html5_fuser::select::{Class, Classes, Id, IntoSelector, Selector, StaticError, Tag};
use html5_fuser::Template;
use std::rc::Rc;

pub fn events_of(t: &Template) -> Result<Vec<Event>, Stop> {
    let mut s = t.into_stream();
    let mut out = Vec::new();
    loop {
        match s.next_event() {
            Ok(Some(e)) => {
                if e.description() != "noop" {
                    out.push(e)
                }
            }
            Ok(None) => return Ok(out),
            Err(e) => return fail(format!("the stream of a template fails: {:?}", e)),
        }
    }
}

fn element_of(ev: &Ev) -> Option<Elem> {
    let (tag, attrs) = match ev {
        Ev::Open(t, a) | Ev::SelfClosed(t, a) | Ev::Void(t, a) => (t, a),
        _ => return None,
    };
    Some(Elem { tag: tag.clone(), close: String::new(), attrs: attrs.clone(), kind: Kind::Void, kids: vec![] })
}

fn describe(ev: &Ev) -> &'static str {
    match ev {
        Ev::Text(_) => "content",
        Ev::Raw(_) => "raw content",
        Ev::Comment(_) => "comment",
        Ev::Doctype(_) => "doctype",
        Ev::Open(..) => "opening tag",
        Ev::Close(_) => "closing tag",
        Ev::SelfClosed(..) => "self-closed tag",
        Ev::Void(..) => "void tag",
    }
}

/// A selector in all the forms in which it can be written.
fn forms(sel: &Sel) -> Result<Vec<(&'static str, Box<dyn Selector>)>, Stop> {
    let bad = |e: String| Stop::Fail(format!("valid selector {:?} is rejected: {}", sel, e));
    let mut out: Vec<(&'static str, Box<dyn Selector>)> = Vec::new();
    let plain = |s: &str| !s.contains('.') && !s.contains('#');
    let can_static = sel.tag.map(plain).unwrap_or(true)
        && sel.id.map(|i| !i.contains('.')).unwrap_or(true)
        && sel.classes.iter().all(|c| !c.contains('.'))
        // without an id, a `#` in the tag would start one
        && !sel.text.is_empty();
    if can_static {
        let s = sel.text.into_selector().map_err(|e| bad(format!("{:?}", e)))?;
        out.push(("text", Box::new(s.clone())));
        out.push(("shared text", Box::new(Rc::new(s))));
        out.push(("Ok text", Box::new(sel.text.into_selector().into_selector().map_err(|e| bad(format!("{:?}", e)))?)));
    }
    out.push(("typed", Box::new(interp::typed(sel).map_err(|e| bad(format!("{:?}", e)))?)));
    macro_rules! all_of {
        ($s:expr, $name:expr) => {{
            let s = $s.map_err(|e| bad(format!("{:?}", e)))?;
            out.push(($name, Box::new(s.clone())));
            out.push(("shared", Box::new(Rc::new(s.clone()))));
            out.push(("shared twice", Box::new(Rc::new(Rc::new(s.clone())))));
            out.push(("into_selector", Box::new(s.into_selector().expect("infallible"))));
        }};
    }
    match (sel.tag, sel.id, sel.classes.as_slice()) {
        (Some(t), None, []) => all_of!(t.parse::<Tag>(), "Tag"),
        (None, Some(i), []) => all_of!(i.parse::<Id>(), "Id"),
        (None, None, [c]) => {
            all_of!(c.parse::<Class>(), "Class");
            all_of!(Classes::from_str_iterator([*c].iter().cloned()), "Classes of one");
        }
        (None, None, cs) if cs.len() > 1 => {
            all_of!(Classes::from_str_iterator(cs.iter().cloned()), "Classes");
            let mut back: Vec<&str> = cs.to_vec();
            back.reverse();
            all_of!(Classes::from_str_iterator(back.into_iter()), "Classes reversed");
        }
        _ => {}
    }
    Ok(out)
}

fn ident_ok(s: &str) -> bool { check_ident(s).is_ok() && !s.contains('\'') }

/// A name taken from the document, or something close to it.
fn near(src: &mut Src, names: &[String]) -> &'static str {
    let base = names[src.below(names.len())].clone();
    let mut s = match src.weighted(&[10, 2, 2, 3, 2, 1]) {
        0 => base,
        1 => format!("{}x", base),
        2 => format!("x{}", base),
        3 => base.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        4 => {
            let mut b = base;
            b.pop();
            b
        }
        _ => base.chars().skip(1).collect(),
    };
    if !ident_ok(&s) {
        s = "x".into();
    }
    gen::intern(&s)
}

fn collect(f: &[Node], tags: &mut Vec<String>, ids: &mut Vec<String>, classes: &mut Vec<String>, other: &mut Vec<String>) {
    for n in f {
        if let Node::Elem(e) = n {
            tags.push(e.tag.clone());
            for (k, v) in &e.attrs {
                let words: Vec<String> =
                    v.iter().flat_map(|v| v.split_whitespace()).filter(|w| ident_ok(w)).map(|w| w.to_string()).collect();
                if same(k, "id") {
                    ids.extend(words)
                } else if same(k, "class") {
                    classes.extend(words)
                } else {
                    other.extend(words)
                }
            }
            collect(&e.kids, tags, ids, classes, other);
        }
    }
}

fn some_sel(src: &mut Src, f: &Forest) -> Sel {
    if src.chance(1, 4) {
        let sel = gen::sel(src, 6);
        // all forms are compared, so only the selectors of the library
        let by = if let SelBy::User(_) = sel.by { SelBy::Static } else { sel.by };
        return Sel { by, ..sel };
    }
    let (mut tags, mut ids, mut classes, mut other) = (vec![], vec![], vec![], vec![]);
    collect(f, &mut tags, &mut ids, &mut classes, &mut other);
    for v in [&mut tags, &mut ids, &mut classes] {
        v.push("x".into());
        // now and then a name which is used for something else
        if !other.is_empty() && src.chance(1, 6) {
            *v = other.clone();
        }
    }
    if src.chance(1, 8) {
        std::mem::swap(&mut ids, &mut classes);
    }
    let shape = src.range(1, 7);
    let tag = if shape & 1 != 0 { Some(near(src, &tags)) } else { None };
    let id = if shape & 2 != 0 { Some(near(src, &ids)) } else { None };
    let mut cs = Vec::new();
    if shape & 4 != 0 {
        let n = if src.chance(1, 30) { src.size(6, 70).max(1) } else { src.range(1, 4) };
        for _ in 0..n {
            cs.push(near(src, &classes));
        }
    }
    let text = gen::intern(&gen::sel_text(tag, id, &cs));
    Sel { tag, id, classes: cs, by: SelBy::Static, text, bad: false }
}

fn against(ctx: &mut Ctx, t: &Template, evs: &[Ev], f: &Forest, sels: usize, what: &str) -> Res {
    let real = events_of(t)?;
    if real.len() != evs.len() || real.iter().zip(evs).any(|(a, b)| a.description() != describe(b)) {
        return fail(format!("the stream of {} gives {:?}, expected {:?}", what, real, evs));
    }
    let mut hits = 0;
    for _ in 0..sels {
        let sel = some_sel(&mut ctx.src, f);
        ctx.input(&sel);
        let fs = forms(&sel)?;
        for (e, ev) in real.iter().zip(evs) {
            let want = match element_of(ev) {
                Some(el) => model::sel_matches(&sel, &el),
                None => false,
            };
            hits += usize::from(want);
            for (name, s) in &fs {
                let got = s.matches(e);
                let by_ref = Selector::matches(&&Boxed(s.as_ref()), e);
                if got != want || by_ref != want {
                    return fail(format!(
                        "{} as {} {} {:?} {} (in {})",
                        short(&gen::sel_text(sel.tag, sel.id, &sel.classes)),
                        name,
                        if got { "matches" } else { "does not match" },
                        short(&e.to_string()),
                        if got == by_ref { "" } else { "but behaves differently by reference" },
                        what
                    ));
                }
            }
        }
        ctx.note(|| format!("{:?} in {}: {} hits", sel.text, what, hits));
    }
    ctx.classify_if(hits > 0, "some match");
    ctx.classify_if(hits == 0, "no match");
    ctx.nontrivial(hits > 0 || evs.len() > 3);
    Ok(())
}

struct Boxed<'a>(&'a dyn Selector);
impl<'a> Selector for Boxed<'a> {
    fn matches(&self, e: &Event) -> bool { self.0.matches(e) }
}

fn c10_documents(ctx: &mut Ctx) -> Res {
    let cfg = DocCfg { class_heavy: true, attrs: 2, spike: 2, cap: 130, ..DocCfg::small() };
    let (s, f) = doc(ctx, &cfg);
    ctx.input(&s);
    let t = must_parse(&s)?;
    against(ctx, &t, &model::events(&f), &f, 5, &format!("{:?}", short(&s)))
}

/// One element with a crafted attribute list.
fn c10_attributes(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    const WORDS: &[&str] = &["x", "y", "X", "xy", "x-y", "-x", "x_", "yx", "xx", "y.x", "x#y", "a"];
    const WS: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\u{c}", "\u{b}"];
    let tag = *src.pick(&["a", "A", "x", "br", "Br", "b"]);
    let mut attrs: crate::refparse::Attrs = vec![];
    let n = src.below(5);
    for _ in 0..n {
        let k = *src.pick(&["class", "CLASS", "Class", "id", "ID", "Id", "clas", "classes", "i", "idx", "x", "k"]);
        let v = match src.below(10) {
            0 => None,
            1 => Some(String::new()),
            _ => {
                let mut v = String::new();
                if src.chance(1, 5) {
                    v.push_str(src.pick(WS));
                }
                let m = src.below(4);
                for i in 0..m {
                    if i > 0 {
                        v.push_str(src.pick(WS));
                    }
                    v.push_str(src.pick(WORDS));
                }
                if src.chance(1, 5) {
                    v.push_str(src.pick(WS));
                }
                Some(v)
            }
        };
        attrs.push((k.to_string(), v));
    }
    let kind = if gen::void_name(tag) {
        Kind::Void
    } else if src.chance(1, 2) {
        Kind::Open
    } else {
        Kind::SelfClosed
    };
    let close = if kind == Kind::Open { tag.to_string() } else { String::new() };
    let f = vec![Node::Elem(Elem { tag: tag.to_string(), close, attrs, kind, kids: vec![] })];
    let s = gen::source(src, &f);
    ctx.input(&s);
    let t = must_parse(&s)?;
    let evs = model::events(&f);
    let real = events_of(&t)?;
    // all words, on their own and in pairs
    for w in WORDS.iter().chain(["b", "br", "BR"].iter()) {
        for shape in 0..4 {
            let other = *ctx.src.pick(WORDS);
            let (tag, id, classes) = match shape {
                0 => (Some(*w), None, vec![]),
                1 => (None, Some(*w), vec![]),
                2 => (None, None, vec![*w]),
                _ => (None, None, vec![*w, other]),
            };
            let text = gen::intern(&gen::sel_text(tag, id, &classes));
            let sel = Sel { tag, id, classes, by: SelBy::Static, text, bad: false };
            let want = model::sel_matches(&sel, &element_of(&evs[0]).unwrap());
            ctx.classify_if(want, "hit");
            for (name, sl) in forms(&sel)? {
                if sl.matches(&real[0]) != want {
                    return fail(format!("{:?} as {} on {:?}: matching is {}", sel, name, s, !want));
                }
            }
        }
    }
    ctx.note(|| format!("{:?} against {} words", s, WORDS.len()));
    ctx.nontrivial(n > 0);
    Ok(())
}

fn c10_transformed(ctx: &mut Ctx) -> Res {
    let cfg = DocCfg { class_heavy: true, attrs: 2, spike: 0, ..DocCfg::tiny() };
    let (s, f) = doc(ctx, &cfg);
    let pcfg = gen::ProgCfg { depth: 1, s_ops: 1, ..gen::ProgCfg::default() };
    let p = gen::sprog(&mut ctx.src, &pcfg);
    let d = diff(ctx, &s, &f, &p)?;
    if let (Some(t), Ok(f)) = (d.out, d.result) {
        // empty texts may or may not show up as events
        let mut evs = model::events(&f);
        evs.retain(|e| !matches!(e, Ev::Text(t) if t.is_empty()));
        let real = events_of(&t)?;
        if real.iter().any(|e| e.description() == "content" && e.to_string().is_empty()) {
            ctx.classify("result with empty texts");
            return Ok(());
        }
        let what = format!("the result {:?}", short(&t.to_string()));
        against(ctx, &t, &evs, &f, 4, &what)?;
    }
    Ok(())
}

/// What a selector text means.
fn meaning(text: &str) -> Result<(Option<&str>, Option<&str>, Vec<&str>), (&'static str, usize, Option<IdentErr>)> {
    let mut tag = None;
    let mut id = None;
    let mut classes = vec![];
    let mut rest = text;
    let end = text.char_indices().find(|(_, c)| *c == '#' || *c == '.').map(|(i, _)| i).unwrap_or(text.len());
    if end > 0 {
        check_ident(&text[..end]).map_err(|e| ("tag", 0, Some(e)))?;
        tag = Some(&text[..end]);
        rest = &text[end..];
    }
    if let Some(r) = rest.strip_prefix('#') {
        let mut parts = r.splitn(2, '.');
        let i = parts.next().unwrap();
        check_ident(i).map_err(|e| ("id", 0, Some(e)))?;
        id = Some(i);
        rest = &r[i.len()..];
    }
    for (i, c) in rest.split('.').enumerate().skip(1) {
        check_ident(c).map_err(|e| ("class", i - 1, Some(e)))?;
        classes.push(c);
    }
    if tag.is_none() && id.is_none() && classes.is_empty() {
        return Err(("empty", 0, None));
    }
    Ok((tag, id, classes))
}

fn c10_texts(ctx: &mut Ctx) -> Res {
    const BITS: &[&str] = &["a", "b", "x", "y", ".", "#", "X", ".x", "#x", "-", "A", "br", ".y", "xy"];
    const BAD: &[&str] = &[" ", "=", "\u{fc}", ",", ">", "\"", "/", "&", "\n", ";", "<"];
    let src = &mut ctx.src;
    let mut text = String::new();
    let n = src.size(7, 60);
    for _ in 0..n {
        text.push_str(src.pick(BITS));
        if src.chance(1, 40) {
            text.push_str(src.pick(BAD));
        }
    }
    ctx.input(&text);
    let k = gen::intern(&text);
    let got = k.into_selector();
    match (&got, meaning(&text)) {
        (Ok(s), Ok((tag, id, classes))) => {
            let sel = Sel {
                tag: tag.map(gen::intern),
                id: id.map(gen::intern),
                classes: classes.into_iter().map(gen::intern).collect(),
                by: SelBy::Static,
                text: k,
                bad: false,
            };
            let cfg = DocCfg { class_heavy: true, attrs: 2, spike: 0, ..DocCfg::tiny() };
            let (d, f) = gen::doc(&mut ctx.src, &cfg);
            ctx.input(&d);
            let t = must_parse(&d)?;
            let evs = model::events(&f);
            let mut hits = 0;
            for (e, ev) in events_of(&t)?.iter().zip(&evs) {
                let want = element_of(ev).map(|e| model::sel_matches(&sel, &e)).unwrap_or(false);
                hits += usize::from(want);
                if s.matches(e) != want {
                    return fail(format!("selector {:?} on {:?}: matching is {}", text, e.to_string(), !want));
                }
            }
            ctx.classify("valid selector text");
            ctx.classify_if(hits > 0, "some match");
            ctx.note(|| format!("{:?} in {:?}: {} hits", text, short(&d), hits));
        }
        (Err(e), Err((part, index, ident))) => {
            let ok = match e {
                StaticError::Unrestricted => part == "empty",
                StaticError::Tag { error } => part == "tag" && Some(crate::refparse::ident_err(error)) == ident,
                StaticError::Id { error } => part == "id" && Some(crate::refparse::ident_err(error)) == ident,
                StaticError::Class { index: i, error } => {
                    part == "class" && *i == index && Some(crate::refparse::ident_err(error)) == ident
                }
            };
            if !ok {
                return fail(format!("selector {:?} fails with {:?}, expected {} {} {:?}", text, e, part, index, ident));
            }
            ctx.classify("invalid selector text");
        }
        (got, want) => return fail(format!("selector {:?} gives {:?}, expected {:?}", text, got.as_ref().map(|_| ()), want)),
    }
    ctx.nontrivial(text.len() > 1);
    Ok(())
}

// ---------------------------------------------------------------- C32

/// A selector with state: it says yes by its turns, and notes what it is asked about.
struct Turns {
    /// the answers about first tags, over and over
    answers: Vec<bool>,
    /// the piece other than a tag about which it says yes, counted from 0
    trap: Option<usize>,
    asked: std::cell::RefCell<Vec<String>>,
    others: std::cell::Cell<usize>,
    sprung: std::cell::Cell<bool>,
}
impl Turns {
    fn new(answers: Vec<bool>, trap: Option<usize>) -> Turns {
        Turns {
            answers,
            trap,
            asked: Default::default(),
            others: Default::default(),
            sprung: Default::default(),
        }
    }
    fn ask(&self, tag: String) -> bool {
        let n = self.asked.borrow().len();
        self.asked.borrow_mut().push(tag);
        self.answers[n % self.answers.len()]
    }
}
impl Selector for Turns {
    fn matches(&self, event: &Event) -> bool {
        let text = event.to_string();
        if text.starts_with("</") {
            return false;
        }
        // the documents have no raw text; texts are encoded
        if text.starts_with('<') && !text.starts_with("<!") {
            return self.ask(text);
        }
        if text.is_empty() {
            return false;
        }
        let n = self.others.get();
        self.others.set(n + 1);
        let yes = self.trap == Some(n);
        if yes {
            self.sprung.set(true);
        }
        yes
    }
}
struct Own(Rc<Turns>);
impl Selector for Own {
    fn matches(&self, event: &Event) -> bool { self.0.matches(event) }
}
struct Lent(Rc<Turns>);
impl Selector for Lent {
    fn matches(&self, event: &Event) -> bool { Selector::matches(&&*self.0, event) }
}

/// What the selector should be asked, and the result with each selected element marked.
fn with_turns(nodes: &[Node], direct: bool, once: bool, w: &Turns, n: &mut usize, how: usize) -> Forest {
    let mut out = Vec::new();
    for node in nodes {
        let e = match node {
            Node::Elem(e) => e,
            other => {
                out.push(other.clone());
                continue;
            }
        };
        let mut e = e.clone();
        if !(once && *n > 0) && w.ask(model::start_tag(&e)) {
            let mark = n.to_string();
            *n += 1;
            match how {
                0 => e.attrs.push(("m".into(), Some(mark))),
                1 => {
                    out.push(Node::Elem(e));
                    out.push(Node::Text(mark));
                    continue;
                }
                2 => {
                    out.push(Node::Text(mark));
                    continue;
                }
                3 => continue,
                _ => {
                    // twice
                    out.push(Node::Elem(e.clone()));
                }
            }
        } else if !direct && e.kind == Kind::Open {
            e.kids = with_turns(&e.kids, direct, once, w, n, how);
        }
        out.push(Node::Elem(e));
    }
    out
}

fn c32_turns(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { mix: [6, 8, 3, 3, 2, 0, 1], cap: 200, ..DocCfg::small() });
    turns(ctx, &s, &f)
}

fn c32_small(ctx: &mut Ctx) -> Res {
    let len = if ctx.thorough { 6 } else { 5 };
    let f = match super::ops::small_forest(ctx.index / 16, len) {
        Some(f) => f,
        None => return Ok(()),
    };
    let s = model::render(&f);
    turns(ctx, &s, &f)
}

fn turns(ctx: &mut Ctx, s: &str, f: &Forest) -> Res {
    fn raw(f: &[Node]) -> bool {
        f.iter().any(|n| match n {
            Node::Raw(_) => true,
            Node::Elem(e) => raw(&e.kids),
            _ => false,
        })
    }
    if raw(f) {
        return Ok(());
    }
    let src = &mut ctx.src;
    let len = src.range(1, 6);
    let mut answers: Vec<bool> = (0..len).map(|_| src.chance(1, 2)).collect();
    if src.chance(1, 2) {
        // rarely yes
        answers = vec![false; len];
        answers[src.below(len)] = true;
    }
    let trap = if src.chance(1, 4) { Some(src.below(6)) } else { None };
    let (direct, once, sub) = (src.chance(1, 3), src.chance(1, 3), src.chance(1, 3));
    let how = src.below(5);
    let form = src.below(4);
    ctx.input(s);
    ctx.input(&(&answers, trap, direct, once, sub, how, form));
    let t = must_parse(s)?;
    // the expected questions and result, without the trap
    let want = Turns::new(answers.clone(), None);
    let mut n = 0;
    let expected = if sub {
        // inside of every outermost `a`
        fn inside(f: &[Node], direct: bool, once: bool, w: &Turns, n: &mut usize, how: usize) -> Forest {
            f.iter()
                .map(|node| match node {
                    Node::Elem(e) => {
                        let mut e = e.clone();
                        if same(&e.tag, "a") {
                            if e.kind == Kind::SelfClosed {
                                e.kind = Kind::Open;
                                e.close = e.tag.clone();
                            }
                            // a first match for each
                            let mut mine = 0;
                            let n = if once { &mut mine } else { &mut *n };
                            e.kids = with_turns(&e.kids, direct, once, w, n, how);
                        } else {
                            e.kids = inside(&e.kids, direct, once, w, n, how);
                        }
                        Node::Elem(e)
                    }
                    other => other.clone(),
                })
                .collect()
        }
        inside(f, direct, once, &want, &mut n, how)
    } else {
        with_turns(f, direct, once, &want, &mut n, how)
    };
    let turns = Rc::new(Turns::new(answers.clone(), trap));
    let count = Rc::new(std::cell::Cell::new(0i64));
    fn mark<'t, S: html5_fuser::ElementStream + 'static>(
        e: html5_fuser::Api<'t, S>,
        count: &std::cell::Cell<i64>,
        how: usize,
    ) -> html5_fuser::BoxedApi<'t> {
        let n = count.get();
        count.set(n + 1);
        match how {
            0 => e.add_attribute("m", Some(n)).into_boxed(),
            1 => e.append(n).into_boxed(),
            2 => e.replace(n).into_boxed(),
            3 => e.remove().into_boxed(),
            _ => e.repeat(0..2, |h, _| h).into_boxed(),
        }
    }
    macro_rules! call {
        ($h:expr, $many:ident, $one:ident, $sel:expr, $count:expr) => {{
            let count = $count;
            if once {
                $h.$one($sel, move |e| mark(e, &count, how)).into_boxed()
            } else {
                $h.$many($sel, move |e| mark(e, &count, how)).into_boxed()
            }
        }};
    }
    macro_rules! forms {
        ($h:expr, $many:ident, $one:ident, $turns:expr, $count:expr) => {{
            let t: Rc<Turns> = $turns;
            match form {
                0 => call!($h, $many, $one, Own(t), $count),
                1 => call!($h, $many, $one, t, $count),
                2 => call!($h, $many, $one, Ok::<_, event::StreamError>(Own(t)), $count),
                _ => call!($h, $many, $one, Lent(t), $count),
            }
        }};
    }
    let (for_builder, counter) = (turns.clone(), count.clone());
    let got = t.transform(move |h| {
        if sub {
            h.select("a", move |e| {
                // counted anew for each element when only the first is wanted
                let counter = if once { Rc::new(std::cell::Cell::new(0)) } else { counter.clone() };
                if direct {
                    forms!(e, subselect_direct, subselect_direct_once, for_builder.clone(), counter)
                } else {
                    forms!(e, subselect, subselect_once, for_builder.clone(), counter)
                }
            })
            .into_boxed()
        } else if direct {
            forms!(h, select_direct, select_direct_once, for_builder, counter)
        } else {
            forms!(h, select, select_once, for_builder, counter)
        }
    });
    let about = || format!(
        "{}{}{} on {:?} with a selector answering {:?} (to other pieces: {:?}, in form {}, then {})",
        if sub { "select a, subselect" } else { "select" },
        if direct { "_direct" } else { "" },
        if once { "_once" } else { "" },
        short(s), answers, trap, form, how
    );
    ctx.note(about);
    let asked = turns.asked.borrow().clone();
    let to_ask = want.asked.borrow().clone();
    ctx.classify_if(turns.sprung.get(), "yes to something else than an element");
    ctx.classify_if(asked.len() > 3, "asked about 4+ elements");
    ctx.nontrivial(asked.len() > 1);
    if turns.sprung.get() {
        if !to_ask.starts_with(&asked) {
            return fail(format!("{}: the selector is asked about {:?}, expected a beginning of {:?}", about(), asked, to_ask));
        }
        return match got {
            Err(event::StreamError::Assertion { .. }) => Ok(()),
            other => fail(format!("{}: gives {:?} instead of a failed assertion", about(), other.map(|t| short(&t.to_string())))),
        };
    }
    if asked != to_ask {
        return fail(format!("{}: the selector is asked about {:?}, expected {:?}", about(), asked, to_ask));
    }
    match got {
        Ok(t) => same_text(&about(), &t.to_string(), &model::render(&expected)),
        Err(e) => fail(format!("{}: fails with {:?}", about(), e)),
    }
}

/// The wishes of user-defined selectors, in all kinds of programs.
fn c32_programs(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { attrs: 2, class_heavy: true, ..DocCfg::small() });
    let mut p = gen::sprog(&mut ctx.src, &crate::gen::ProgCfg { depth: 3, ..Default::default() });
    let src = &mut ctx.src;
    let mut some = false;
    crate::sites::sprog(&mut p, &mut |site| {
        if let crate::sites::Site::Sel(sel) = site {
            if src.chance(3, 4) {
                sel.by = SelBy::User(src.below(model::USER_WISHES as usize) as u8);
                some = true;
            }
        }
    });
    let d = diff(ctx, &s, &f, &p)?;
    ctx.nontrivial(some && !d.calls.is_empty());
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C10",
        level: "exploration",
        rule: "elements and other events of generated documents and of transformed templates against selectors made from names of the document, near misses of them, and names used in other roles, in every form (text, typed, reference, shared, Ok result); crafted attribute lists against a fixed list of words; random selector texts against a reference grammar. Non-trivial: some element is matched or the document has 4+ events",
        parts: vec![
            part("documents", 180_000, 2_000_000, c10_documents),
            part("crafted attributes", 60_000, 700_000, c10_attributes),
            part("transformed templates", 120_000, 1_200_000, c10_transformed),
            part("selector texts", 500_000, 5_000_000, c10_texts),
        ],
        assumptions: &[],
        findings: vec![],
        exhaustive_parts: &[],
    },
    Check {
        id: "C32",
        level: "exploration",
        rule: "A selector of the user answers by its turns (any pattern of yes and no) and notes what it is asked, in all eight selections and in all forms of the selector, followed by one of five operations; questions and result must be those of a walk over the tree. Sometimes it says yes to a text, comment or doctype, which must fail. And random programs whose selectors ask for something in the text of the tag, against the tree model. Non-trivial: the selector is asked about 2+ elements, or a builder is called.",
        parts: vec![
            part("answers in turns", 250_000, 2_500_000, c32_turns),
            part("programs", 120_000, 1_200_000, c32_programs),
            part("small documents", super::ops::forests(5) * 16, super::ops::forests(6) * 16, c32_small),
        ],
        assumptions: &["about closing tags the selector always answers no"],
        findings: vec![],
        exhaustive_parts: &[],
    }]
}
