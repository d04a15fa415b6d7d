//! C04 (no panics), C21 (failures are reported exactly when reached), C27 (error messages).

use super::ops::{el, forests, mark, name, none, only, select, small_forest, subselect, text, two};
use super::*;
use crate::gen::{tag_sel, DocCfg, ProgCfg};
use crate::interp::Fuel;
use crate::refparse;
use crate::sites::{self, Site};
use html5_fuser::event::{AssertionError, MalformedReason, StreamError};
use html5_fuser::location::Location;
use html5_fuser::parse::Error as ParseError;
use html5_fuser::select::{Class, Classes, Id, IntoSelector, Tag};
use html5_fuser::template::{FileError, InputError};
use html5_fuser::text::{Data, Identifier, IdentifierError, Value};
use html5_fuser::{BoxedApi, BoxedElementApi, ParseOptions, Template};
use std::error::Error;
use std::rc::Rc;

// ---------------------------------------------------------------- C04

/// A character from anywhere in unicode, with a preference for the interesting ones.
fn any_char(src: &mut Src) -> char {
    const SPECIAL: &[char] = &[
        '<', '>', '/', '=', '"', '\'', '!', '-', ' ', '\n', '\r', '\t', '\u{c}', '\u{b}', '\0', '&', ';', '.', '#',
        'a', 'b', '\u{85}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{feff}', '\u{130}', '\u{131}', '\u{df}',
        '\u{301}', '\u{200d}', '\u{1f600}', '\u{10ffff}', '\u{fffd}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}',
        '\u{ffff}', '\u{10000}', '\u{17f}', '\u{212a}',
    ];
    match src.weighted(&[8, 4, 2, 1]) {
        0 => *src.pick(SPECIAL),
        1 => (src.below(0x80) as u8) as char,
        2 => char::from_u32(src.below(0x2000) as u32).unwrap_or('?'),
        _ => char::from_u32(src.below(0x110000) as u32).unwrap_or('?'),
    }
}

pub fn any_string(src: &mut Src, small: usize, cap: usize) -> String {
    let n = src.size(small, cap);
    (0..n).map(|_| any_char(src)).collect()
}

fn any_text(src: &mut Src) -> String {
    match src.weighted(&[4, 4, 4, 4, 2]) {
        0 => any_string(src, 30, 400),
        4 => {
            let mut s = parsing::planted(src, &DocCfg::tiny());
            if src.chance(1, 2) {
                s.push_str(&parsing::defect(src));
            }
            s
        }
        1 => parsing::soup(src),
        2 => {
            let (s, _) = gen::doc(src, &DocCfg::default());
            parsing::mutate(src, s)
        }
        _ => {
            // arbitrary characters put into a document
            let (mut s, _) = gen::doc(src, &DocCfg::small());
            for _ in 0..src.range(1, 6) {
                let mut at = src.below(s.len() + 1);
                while !s.is_char_boundary(at) {
                    at -= 1;
                }
                s.insert_str(at, &any_string(src, 3, 10));
            }
            s
        }
    }
}

pub(super) const NO_LIMITS: ParseOptions = ParseOptions { max_stack_depth: None, max_input_len: None };

fn any_options(src: &mut Src, len: usize) -> ParseOptions {
    let around = |src: &mut Src, n: usize| -> Option<usize> {
        match src.below(7) {
            0 => None,
            1 => Some(0),
            2 => Some(usize::MAX),
            3 => Some(1),
            4 => Some(n),
            5 => Some(n + 1),
            _ => Some(src.below(20)),
        }
    };
    let d = around(src, 2);
    let l = around(src, len);
    match src.below(3) {
        0 => ParseOptions::default(),
        1 => ParseOptions { max_stack_depth: d, max_input_len: l },
        _ => {
            let mut o = NO_LIMITS;
            if let Some(d) = d {
                o = o.max_stack_depth(d);
            }
            if let Some(l) = l {
                o = o.max_input_len(l);
            }
            o
        }
    }
}

/// Everything that can be displayed about an error is displayed without panic.
#[allow(deprecated)]
pub fn chain(e: &dyn Error) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur: Option<&dyn Error> = Some(e);
    while let Some(e) = cur {
        out.push(e.to_string());
        let _ = e.description();
        let _ = format!("{:?} {:#?}", e, e);
        cur = e.cause();
        if out.len() > 100 {
            break;
        }
    }
    out
}

fn tiny_prog(src: &mut Src) -> SProg { gen::sprog(src, &ProgCfg { depth: 2, s_ops: 1, max_items: 3, ..ProgCfg::default() }) }

fn c04_parse(ctx: &mut Ctx) -> Res {
    let s = any_text(&mut ctx.src);
    let o = any_options(&mut ctx.src, s.len());
    ctx.input(&s);
    ctx.nontrivial(!s.is_empty());
    match Template::from_str(&s, o) {
        Ok(t) => {
            ctx.classify("accepted");
            let r = t.to_string();
            let _ = format!("{:?}", t);
            let c = t.clone();
            let _ = c == t;
            let again = Template::from_str(&r, NO_LIMITS);
            if let Ok(again) = &again {
                let _ = *again == t;
            }
            let p = tiny_prog(&mut ctx.src);
            ctx.input(&p);
            let _fuel = Fuel::new(2000);
            for t in Some(&t).into_iter().chain(again.as_ref().ok()) {
                match interp::transform(t, &p) {
                    Ok(t) => {
                        let _ = t.to_string();
                        let _ = t == c;
                    }
                    Err(e) => {
                        chain(&e);
                    }
                }
            }
        }
        Err(e) => {
            ctx.classify("rejected");
            ensure!(!chain(&e).is_empty(), "no message");
            if let InputError::Parse { error } = &e {
                let _ = error == error;
                let _ = error.clone();
            }
        }
    }
    Ok(())
}

/// All short strings over characters of all kinds, as template, name, selector and path.
fn c04_short(ctx: &mut Ctx) -> Res {
    const CHARS: &[&str] = &[
        "<", ">", "/", "=", "\"", "'", "!", "-", " ", "\n", "a", ".", "#", "&", ";", "\u{e9}", "\0", "\u{3000}", "<!--",
        "-->", "<!doctype", "script", "</", "\u{1f600}", "br",
    ];
    let mut n = ctx.index;
    let mut s = String::new();
    for _ in 0..if ctx.thorough { 4 } else { 3 } {
        let k = (n % (CHARS.len() as u64 + 1)) as usize;
        n /= CHARS.len() as u64 + 1;
        if k > 0 {
            s.push_str(CHARS[k - 1]);
        }
    }
    ctx.input(&s);
    ctx.nontrivial(true);
    for src in &[s.clone(), format!("<a b{}>", s), format!("<a{}></a>", s), format!("<script>{}</script>", s), format!("<a>{}</a>", s)] {
        match interp::parse(src) {
            Ok(t) => {
                let _ = t.to_string();
            }
            Err(e) => {
                chain(&e);
            }
        }
    }
    let t = must_parse("<a id=\"x\" class=\"x y\">t</a>")?;
    names(&t, gen::intern(&s));
    Ok(())
}

/// One text in all places that take names, selectors, content and values.
fn names(t: &Template, s: &'static str) {
    fn see<T, E: Error>(r: Result<T, E>) -> Option<T> { r.map_err(|e| chain(&e)).ok() }
    if let Some(i) = see(s.parse::<Identifier>()) {
        let _ = (i.to_string(), format!("{:?}", i), i == i.clone());
    }
    see(s.parse::<Tag>());
    see(s.parse::<Id>());
    see(s.parse::<Class>());
    see(Classes::from_str_iterator(s.split(' ')));
    see(s.into_selector());
    see(Template::with_element(s).map(|t| t.to_string()));
    for r in vec![
        t.transform(|a| a.select(s, |e| e.remove_contents())),
        t.transform(|a| a.select_direct_once(s.parse::<Class>(), |e| e.remove())),
        t.transform(|a| a.select(s.parse::<Id>(), |e| e.subselect(s, |e| e.remove_class(s)))),
        t.transform(|a| a.select("a", |e| e.set_id(s).add_class(s).remove_class(s).append_contents(s).prepend(s))),
        t.transform(|a| a.select("a", |e| e.add_to_attribute("class", s, s).remove_class("x").set_attribute_with_value(s, s))),
        t.transform(|a| a.select("a", |e| e.set_attribute_with_value("class", s).remove_class("y").add_attribute_with_value("id", s))),
        t.transform(|a| a.select("a", |e| e.set_attribute_with_value("id", s)).select("#x", |e| e.remove()).select(".x", |e| e.remove())),
        Template::with_transformed_element(s, |e| e.set_empty_attribute(s).replace_contents(s)),
    ] {
        if let Some(t) = see(r) {
            let _ = (t.to_string(), format!("{:?}", t));
            if let Some(u) = see(interp::parse(&t.to_string())) {
                let _ = u == t;
            }
        }
    }
    let _ = (Value::from_unencoded_str(s).to_string(), Data::from_unencoded_str(s).to_string());
    let _ = Value::from_unencoded_static_str(s) == Value::from_unencoded_str(s);
}

fn c04_names(ctx: &mut Ctx) -> Res {
    let n = ctx.src.size(4, 40);
    let s: String = (0..n).map(|_| any_char(&mut ctx.src)).collect();
    ctx.input(&s);
    ctx.nontrivial(n > 0);
    let (doc, _) = gen::doc(&mut ctx.src, &DocCfg::tiny());
    let t = must_parse(&doc)?;
    names(&t, gen::intern(&s));
    Ok(())
}

fn mangled(src: &mut Src) -> Content {
    let f = gen::fragment(src, &DocCfg { cap: 60, ..DocCfg::tiny() });
    let n = src.range(1, 5);
    let edits = (0..n).map(|_| (src.below(8) as u8, src.below(64) as u16)).collect();
    Content::Mangled(f, edits)
}

/// Replace some places of a program by something wrong.
fn junk(src: &mut Src, p: &mut SProg, rate: u64) -> (bool, bool) {
    let mut any = false;
    let mut odd = false;
    sites::sprog(p, &mut |site| {
        if !src.chance(rate, 10) {
            return;
        }
        any = true;
        match site {
            Site::Name(n) => {
                let s = any_string(src, 3, 12);
                *n = Name(gen::intern(&s), gen::name_by(src));
            }
            Site::Sel(sel) => {
                if src.chance(1, 2) {
                    sel.text = gen::intern(&any_string(src, 4, 12));
                    sel.by = SelBy::Static;
                } else {
                    sel.tag = Some(gen::intern(&any_string(src, 3, 6)));
                    sel.by = *src.pick(&[SelBy::Typed, SelBy::TypedResult, SelBy::TypedRc]);
                }
            }
            Site::Content(c) => {
                *c = match src.below(7) {
                    0 => Content::Fail(gen::failure(src)),
                    1 => Content::Broken(gen::fragment(src, &DocCfg::tiny()), src.below(8)),
                    2 => Content::Text(TextSrc::Static(gen::intern(&any_string(src, 8, 60)))),
                    3 => Content::Greedy(Box::new(c.clone())),
                    4 => Content::Greedy(Box::new(Content::Fail(gen::failure(src)))),
                    _ => {
                        odd = true;
                        mangled(src)
                    }
                }
            }
        }
    });
    (any, odd)
}

/// The repetitions of a program, multiplied: how much it may grow a document.
pub fn growth(p: &SProg) -> u64 {
    let text = format!("{:?}", p);
    let mut n = 1u64;
    let mut rest = &text[..];
    while let Some(at) = rest.find("Items { values: [") {
        rest = &rest[at + 17..];
        let end = rest.find(']').unwrap_or(0);
        let items = rest[..end].split(',').count() as u64;
        n = n.saturating_mul(items.max(1));
    }
    n
}

fn all_uses(ctx: &mut Ctx, t: &Template, p: &SProg) -> Option<Template> {
    match interp::transform(t, p) {
        Ok(out) => {
            ctx.classify("transform succeeds");
            let text = out.to_string();
            let _ = format!("{:?}", out);
            let _ = out == *t;
            let _ = interp::parse(&text).map_err(|e| chain(&e));
            Some(out)
        }
        Err(e) => {
            ctx.classify("transform fails");
            ctx.classify_if(matches!(e, StreamError::Assertion { .. }), "malformed stream reported");
            chain(&e);
            None
        }
    }
}

const TOO_LARGE: &str = "the repetitions of the program multiply to more than 2000";

fn c04_programs(ctx: &mut Ctx) -> Res {
    let (s, _) = doc(ctx, &DocCfg { cap: 120, ..DocCfg::small() });
    let cfg = ProgCfg { max_items: 6, ..ProgCfg::default() };
    let mut p = gen::sprog(&mut ctx.src, &cfg);
    let rate = *ctx.src.pick(&[1u64, 2, 5]);
    let (any, odd) = junk(&mut ctx.src, &mut p, rate);
    ctx.input(&s);
    ctx.input(&p);
    if growth(&p) > 2000 {
        return Err(Stop::Excluded(TOO_LARGE));
    }
    ctx.classify_if(odd, "malformed user stream");
    ctx.nontrivial(any);
    let t = must_parse(&s)?;
    let _fuel = Fuel::new(3000);
    ctx.note(|| format!("{} {}", short(&s), short(&format!("{:?}", p))));
    if let Some(out) = all_uses(ctx, &t, &p) {
        // once more, on what may not be well formed
        let again = tiny_prog(&mut ctx.src);
        ctx.input(&again);
        all_uses(ctx, &out, &again);
        if out.to_string().len() < 20_000 {
            all_uses(ctx, &out, &p);
        }
    }
    Ok(())
}

/// Malformed streams first, then operations of all kinds on what they gave.
fn c04_malformed(ctx: &mut Ctx) -> Res {
    let c = mangled(&mut ctx.src);
    let cfg = ProgCfg { max_items: 4, ..ProgCfg::default() };
    let p = gen::sprog(&mut ctx.src, &cfg);
    let sel = tag_sel(*ctx.src.pick(&["a", "b", "br", "div", "p"]));
    let op = gen::eprog(&mut ctx.src, &cfg);
    let mut prog = match ctx.src.below(5) {
        0 => vec![SOp::Replace(c)],
        1 => vec![SOp::Append(c)],
        2 => vec![select(Scope::Any, false, sel.clone(), only(vec![EOp::AppendContents(c)]))],
        3 => vec![select(Scope::Any, false, sel.clone(), only(vec![EOp::ReplaceContents(c), EOp::SubSelectContents(Rc::new(p.clone()))]))],
        _ => vec![SOp::Prepend(c)],
    };
    let scope = *ctx.src.pick(&[Scope::Any, Scope::Direct]);
    prog.push(select(scope, ctx.src.chance(1, 3), sel, op));
    prog.extend(p);
    ctx.input(&prog);
    if growth(&prog) > 2000 {
        return Err(Stop::Excluded(TOO_LARGE));
    }
    ctx.nontrivial(true);
    let t = must_parse("<a><b>x</b><a/></a><br>")?;
    let _fuel = Fuel::new(3000);
    ctx.note(|| short(&format!("{:?}", prog)));
    if let Some(out) = all_uses(ctx, &t, &prog) {
        if out.to_string().len() < 4000 {
            all_uses(ctx, &out, &prog);
        }
    }
    Ok(())
}

/// Every sequence of few events, well formed or not, under every element operation.
fn c04_small(ctx: &mut Ctx) -> Res {
    const LEN: u32 = 4;
    const EVENTS: u64 = 7;
    let len = if ctx.thorough { LEN + 1 } else { LEN };
    let mut n = ctx.index;
    let source = must_parse("<a></a><b></b><br><a/>t")?;
    let mut all = interp::mangle(&source, &[]);
    if let Some(e) = interp::noop() {
        // streams of the library may yield it to users, who may display it
        let _ = e.description();
        ensure!(e.to_string().is_empty(), "the empty event displays as {:?}", e.to_string());
        all.push(e);
    }
    // <a> </a> <b> </b> <br> <a/> t (the text is left out for the empty event)
    let mut events = Vec::new();
    for _ in 0..len {
        let k = (n % (EVENTS + 1)) as usize;
        n /= EVENTS + 1;
        if k < all.len() {
            events.push(all[k].clone());
        }
    }
    ctx.nontrivial(!events.is_empty());
    ctx.input(&ctx.index.clone());
    let t = must_parse("<a></a>")?;
    let whole = t.transform(|a| a.replace(interp::UserStream(interp::Listed::new(events.clone()))));
    let whole = match whole {
        Ok(t) => t,
        Err(e) => {
            chain(&e);
            return Ok(());
        }
    };
    let _ = whole.to_string();
    let bodies = super::ops::BODIES;
    for b in 0..bodies {
        let body = super::ops::body(b);
        for &(scope, once) in &[(Scope::Any, false), (Scope::Any, true), (Scope::Direct, false), (Scope::Direct, true)] {
            for sub in 0..3 {
                let inner = select(scope, once, tag_sel("a"), body.clone());
                let p = match sub {
                    0 => vec![inner],
                    1 => vec![select(Scope::Any, false, tag_sel("a"), only(vec![subselect(scope, once, tag_sel("b"), body.clone())]))],
                    _ => vec![select(Scope::Any, false, tag_sel("a"), only(vec![EOp::SubSelectContents(Rc::new(vec![inner]))]))],
                };
                match interp::transform(&whole, &p) {
                    Ok(t) => {
                        let _ = t.to_string();
                    }
                    Err(e) => {
                        chain(&e);
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug)]
enum Plant {
    Name(Name),
    Sel(Sel),
    Fail(model::Failure),
    Broken(usize),
}

/// The error a planted failure must lead to.
fn expected(p: &Plant) -> String {
    let e: Result<(), StreamError> = match p {
        Plant::Name(n) => n.0.parse::<Identifier>().map(|_| ()).map_err(StreamError::from),
        Plant::Sel(s) if s.by == SelBy::Static => s.text.into_selector().map(|_| ()).map_err(StreamError::from),
        Plant::Sel(s) => interp::typed(s).map(|_| ()),
        Plant::Fail(f) => interp::failing(f).map(|_| ()),
        Plant::Broken(_) => Err(StreamError::from(IdentifierError::Empty)),
    };
    match e {
        Ok(()) => "no error at all".into(),
        Err(e) => format!("{:?}", e),
    }
}

fn plant_at(src: &mut Src, p: &mut SProg, at: usize) -> Option<Plant> {
    let mut i = 0;
    let mut out = None;
    sites::sprog(p, &mut |site| {
        if i == at {
            out = Some(match site {
                Site::Name(n) => {
                    *n = gen::bad_name(src);
                    Plant::Name(n.clone())
                }
                Site::Sel(s) => {
                    *s = gen::bad_sel(src);
                    Plant::Sel(s.clone())
                }
                Site::Content(c) => {
                    if src.chance(1, 2) {
                        let f = gen::failure(src);
                        *c = Content::Fail(f.clone());
                        Plant::Fail(f)
                    } else {
                        let f = gen::fragment(src, &DocCfg { cap: 60, ..DocCfg::tiny() });
                        let n = model::events(&f.1).len();
                        let k = src.below(n + 1);
                        *c = Content::Broken(f, k);
                        Plant::Broken(k)
                    }
                }
            });
        }
        i += 1;
    });
    out
}

/// One planted failure: the model says whether it is reached, and which kind of error results;
/// the error itself must be the planted one in all details.
fn exact(ctx: &mut Ctx, s: &str, f: &Forest, p: &SProg, plants: &[Plant]) -> Res {
    let t = must_parse(s)?;
    ctx.input(s);
    ctx.input(p);
    model::take_calls();
    let want = model::run_s(f.clone(), p, &interp::root_env());
    model::take_calls();
    if want == Err(MErr::TooLarge) {
        return Err(Stop::Excluded("the result is too large for the harness"));
    }
    let got = interp::transform(&t, p);
    model::take_calls();
    let about = || format!("transforming {:?}\n  by {}", short(s), short(&format!("{:?}", p)));
    ctx.note(|| format!("{} with {} gives {:?}", about(), short(&format!("{:?}", plants)), want.as_ref().err()));
    match (got, want) {
        (Ok(t), Ok(w)) => {
            ctx.classify("failure not reached");
            same_text(&about(), &t.to_string(), &model::render(&w))
        }
        (Err(e), Err(_)) => {
            ctx.classify("failure reached");
            let got = format!("{:?}", e);
            let mut all = Vec::new();
            for p in plants {
                let want = expected(p);
                if got == want {
                    return Ok(());
                }
                all.push(want);
            }
            fail(format!("{}: fails with {}, expected {}", about(), got, all.join(" or ")))
        }
        (Ok(t), Err(_)) => fail(format!("{}: gives {:?} instead of the error of {:?}", about(), short(&t.to_string()), plants)),
        (Err(e), Ok(w)) => fail(format!(
            "{}: fails with {:?}, although {:?} is not reached; expected {:?}",
            about(),
            e,
            plants,
            short(&model::render(&w))
        )),
    }
}

fn c21_cfg() -> ProgCfg { ProgCfg { max_items: 6, ..ProgCfg::default() } }

fn c21_one(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { cap: 150, ..DocCfg::small() });
    let mut p = gen::sprog(&mut ctx.src, &c21_cfg());
    let n = sites::count(&p);
    if n == 0 {
        return exact(ctx, &s, &f, &p, &[]);
    }
    let at = ctx.src.below(n);
    let plant = plant_at(&mut ctx.src, &mut p, at);
    ctx.nontrivial(true);
    let plants: Vec<Plant> = plant.into_iter().collect();
    exact(ctx, &s, &f, &p, &plants)
}

/// The same program with the failure planted at each of its places in turn.
fn c21_every(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { cap: 60, ..DocCfg::small() });
    let p = gen::sprog(&mut ctx.src, &ProgCfg { depth: 3, max_items: 3, ..ProgCfg::default() });
    let n = sites::count(&p);
    ctx.nontrivial(n > 1);
    for at in 0..n.min(60) {
        let mut p = p.clone();
        let plants: Vec<Plant> = plant_at(&mut ctx.src, &mut p, at).into_iter().collect();
        exact(ctx, &s, &f, &p, &plants)?;
    }
    Ok(())
}

/// A user stream failing at every one of its events.
fn c21_broken(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { cap: 60, ..DocCfg::small() });
    let p = gen::sprog(&mut ctx.src, &ProgCfg { max_items: 3, ..ProgCfg::default() });
    let frag = gen::fragment(&mut ctx.src, &DocCfg { cap: 30, ..DocCfg::small() });
    let mut contents = 0;
    let mut q = p.clone();
    sites::sprog(&mut q, &mut |site| if let Site::Content(_) = site { contents += 1 });
    // without a place for content: put one at the top
    let at = if contents == 0 { 0 } else { ctx.src.below(contents) };
    let n = model::events(&frag.1).len();
    ctx.nontrivial(true);
    for k in 0..(n + 2).min(40) {
        let mut q = p.clone();
        if contents == 0 {
            q.insert(0, SOp::Append(Content::Broken(frag.clone(), k)));
        } else {
            let mut i = 0;
            sites::sprog(&mut q, &mut |site| {
                if let Site::Content(c) = site {
                    if i == at {
                        *c = Content::Broken(frag.clone(), k);
                    }
                    i += 1;
                }
            });
        }
        exact(ctx, &s, &f, &q, &[Plant::Broken(k)])?;
    }
    Ok(())
}

fn c21_several(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { cap: 150, ..DocCfg::small() });
    let mut p = gen::sprog(&mut ctx.src, &c21_cfg());
    let n = sites::count(&p);
    let mut plants = Vec::new();
    if n > 0 {
        for _ in 0..ctx.src.range(2, 5) {
            let at = ctx.src.below(n);
            plants.extend(plant_at(&mut ctx.src, &mut p, at));
        }
    }
    ctx.nontrivial(plants.len() > 1);
    exact(ctx, &s, &f, &p, &plants)
}

/// Valid programs never fail.
fn c21_valid(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { cap: 300, ..DocCfg::default() });
    let p = gen::sprog(&mut ctx.src, &ProgCfg { depth: 4, ..c21_cfg() });
    ctx.nontrivial(sites::count(&p) > 1);
    let d = diff(ctx, &s, &f, &p)?;
    if let Err(e) = d.result {
        return Err(Stop::Harness(format!("valid program fails in the model: {:?}", e)));
    }
    Ok(())
}

/// Ways of failing, as stream programs; those of elements are put on every `a`.
fn failures() -> Vec<(SProg, Plant)> {
    let mut out: Vec<(SProg, Plant)> = Vec::new();
    let frag = || Rc::new(("<b>x</b>".to_string(), vec![el("b", vec![Node::Text("x".into())])]));
    let bad = Plant::Fail(model::Failure::Input("<a>"));
    let input = || Content::Fail(model::Failure::Input("<a>"));
    let sel = |by: SelBy| match by {
        SelBy::Static => Sel { tag: None, id: None, classes: vec![], by, text: "#", bad: true },
        by => Sel { tag: None, id: Some("a b"), classes: vec![], by, text: "", bad: true },
    };
    for op in vec![SOp::Prepend(input()), SOp::Append(input()), SOp::Replace(input())] {
        out.push((vec![op], bad.clone()));
    }
    for k in &[0, 1, 3] {
        out.push((vec![SOp::Append(Content::Broken(frag(), *k))], Plant::Broken(*k)));
        out.push((vec![SOp::Prepend(Content::Broken(frag(), *k))], Plant::Broken(*k)));
    }
    for by in &[SelBy::Static, SelBy::TypedResult] {
        for scope in &[Scope::Any, Scope::Direct] {
            for once in &[false, true] {
                out.push((vec![select(*scope, *once, sel(*by), only(vec![mark()]))], Plant::Sel(sel(*by))));
            }
        }
    }
    let n = name("a b");
    let v = || TextSrc::Static("v");
    let elem: Vec<(EOp, Plant)> = vec![
        (EOp::AddAttr(n.clone(), None), Plant::Name(n.clone())),
        (EOp::AddAttrValue(n.clone(), v()), Plant::Name(n.clone())),
        (EOp::AddEmpty(n.clone()), Plant::Name(n.clone())),
        (EOp::AddTo(n.clone(), v(), v()), Plant::Name(n.clone())),
        (EOp::ReplaceIfExists(n.clone(), v()), Plant::Name(n.clone())),
        (EOp::SetAttr(n.clone(), Some(v())), Plant::Name(n.clone())),
        (EOp::SetAttrValue(n.clone(), v()), Plant::Name(n.clone())),
        (EOp::SetEmpty(n.clone()), Plant::Name(n.clone())),
        (EOp::RemoveAttr(n.clone()), Plant::Name(n.clone())),
        (EOp::AddClass(n.clone()), Plant::Name(n.clone())),
        (EOp::RemoveClass(n.clone()), Plant::Name(n.clone())),
        (EOp::SetId(n.clone()), Plant::Name(n.clone())),
        (EOp::PrependContents(input()), bad.clone()),
        (EOp::AppendContents(input()), bad.clone()),
        (EOp::ReplaceContents(input()), bad.clone()),
        (EOp::AppendContents(Content::Broken(frag(), 3)), Plant::Broken(3)),
        (EOp::SubSelectContents(Rc::new(vec![SOp::Append(input())])), bad.clone()),
        (EOp::RepeatContents(two(), Rc::new(vec![SOp::Append(input())])), bad.clone()),
        (EOp::RepeatContents(none(), Rc::new(vec![SOp::Append(input())])), bad.clone()),
        (subselect(Scope::Any, false, sel(SelBy::Static), only(vec![])), Plant::Sel(sel(SelBy::Static))),
        (subselect(Scope::Any, true, sel(SelBy::Static), only(vec![])), Plant::Sel(sel(SelBy::Static))),
        (subselect(Scope::Direct, false, sel(SelBy::TypedResult), only(vec![])), Plant::Sel(sel(SelBy::TypedResult))),
        (subselect(Scope::Direct, true, sel(SelBy::TypedResult), only(vec![])), Plant::Sel(sel(SelBy::TypedResult))),
    ];
    for (op, plant) in elem {
        out.push((vec![select(Scope::Any, false, tag_sel("a"), only(vec![op]))], plant));
    }
    out
}

/// Places a failing program can be in.
fn context(n: usize, p: SProg) -> Option<SProg> {
    let p = Rc::new(p);
    let id = || Rc::new(vec![]);
    let on = |tag: &'static str, op: EOp| select(Scope::Any, false, tag_sel(tag), only(vec![op]));
    let e = |tail: ETail| vec![select(Scope::Any, false, tag_sel("a"), super::ops::tail(tail))];
    let q = || Rc::new(EProg { ops: vec![], tail: ETail::None, rest: (*p).clone() });
    Some(match n {
        0 => (*p).clone(),
        1 => {
            let mut v = vec![SOp::Remove];
            v.extend((*p).clone());
            v
        }
        2 => {
            let mut v = (*p).clone();
            v.push(SOp::Remove);
            v
        }
        3 => {
            let mut v = (*p).clone();
            v.push(SOp::Replace(text("r")));
            v
        }
        4 => {
            let mut v = vec![SOp::Replace(text("r"))];
            v.extend((*p).clone());
            v
        }
        5 => vec![SOp::ApplyIf(true, p.clone())],
        6 => vec![SOp::ApplyIf(false, p.clone())],
        7 => vec![SOp::ApplyIfElse(true, p.clone(), id())],
        8 => vec![SOp::ApplyIfElse(false, p.clone(), id())],
        9 => vec![SOp::ApplyIfElse(false, id(), p.clone())],
        10 => vec![SOp::ApplyOption(None, p.clone(), id())],
        11 => vec![SOp::ApplyOption(Some(1), p.clone(), id())],
        12 => vec![SOp::ApplyOption(Some(1), id(), p.clone())],
        13 => vec![SOp::ApplyResult(Ok(1), id(), p.clone())],
        14 => vec![SOp::ApplyResult(Err(1), id(), p.clone())],
        15 => vec![SOp::Repeat(two(), p.clone())],
        16 => vec![SOp::Repeat(none(), p.clone())],
        17 => vec![SOp::RepeatOrElse(two(), id(), p.clone())],
        18 => vec![SOp::RepeatOrElse(none(), p.clone(), id())],
        19 => vec![SOp::RepeatOrElse(none(), id(), p.clone())],
        20 => vec![SOp::Apply(p.clone())],
        21 => vec![SOp::ApplyBoxed(p.clone())],
        22 => vec![SOp::ApplyTemplate(p.clone())],
        23 => {
            let mut v = (*p).clone();
            v.push(SOp::Repeat(none(), id()));
            v
        }
        24 => {
            let mut v = (*p).clone();
            v.push(SOp::Repeat(two(), id()));
            v
        }
        25 => vec![on("b", EOp::SubSelectContents(p.clone()))],
        26 => vec![on("b", EOp::RepeatContents(two(), p.clone()))],
        27 => vec![on("b", EOp::RepeatContents(none(), p.clone()))],
        28 => vec![on("br", EOp::SubSelectContents(p.clone()))],
        29 => vec![on("none", EOp::SubSelectContents(p.clone()))],
        30 => vec![select(Scope::Direct, true, tag_sel("b"), (*q()).clone())],
        31 => vec![select(Scope::Any, true, tag_sel("a"), (*q()).clone())],
        32 => vec![on("b", subselect(Scope::Any, false, tag_sel("a"), (*q()).clone()))],
        33 => vec![on("b", subselect(Scope::Direct, true, tag_sel("br"), (*q()).clone()))],
        34 => e(ETail::RepeatContentsOrElse(none(), p.clone(), Rc::new(only(vec![])))),
        35 => e(ETail::RepeatContentsOrElse(none(), id(), q())),
        36 => e(ETail::RepeatContentsOrElse(two(), p.clone(), Rc::new(only(vec![])))),
        37 => e(ETail::RepeatContentsOrElse(two(), id(), q())),
        38 => e(ETail::ApplyIf(false, q())),
        39 => vec![on("b", EOp::SubSelectContents(p.clone())), on("b", EOp::RemoveContents)],
        40 => {
            let mut v = (*p).clone();
            v.push(select(Scope::Any, false, tag_sel("a"), EProg { ops: vec![], tail: ETail::Stream(SOp::Remove), rest: vec![] }));
            v
        }
        41 => vec![SOp::Append(text("x")), SOp::Apply(p.clone()), SOp::Prepend(text("y"))],
        _ => return None,
    })
}
const CONTEXTS: u64 = 42;
const FAILURES: u64 = 40;

thread_local! {
    static WAYS: Vec<(SProg, Plant)> = failures();
}

fn c21_small(ctx: &mut Ctx) -> Res {
    let per = CONTEXTS * FAILURES;
    let len = if ctx.thorough { 4 } else { 3 };
    let f = match small_forest(ctx.index / per, len) {
        Some(f) => f,
        None => return Ok(()),
    };
    let n = ctx.index % per;
    let (p, plant) = match WAYS.with(|w| {
        if w.len() as u64 != FAILURES {
            panic!("{} ways of failing", w.len());
        }
        w.get((n % FAILURES) as usize).cloned()
    }) {
        Some(x) => x,
        None => return Ok(()),
    };
    let p = match context((n / FAILURES) as usize, p) {
        Some(p) => p,
        None => return Ok(()),
    };
    ctx.nontrivial(true);
    let s = model::render(&f);
    exact(ctx, &s, &f, &p, &[plant])
}

// ---------------------------------------------------------------- C30

/// When user code runs: builders, items and contents are called for only by the running
/// transform, never while the chain is built, after a failure, or after their end.
fn timely(ctx: &mut Ctx, s: &str, f: &Forest, p: &SProg) -> Result<interp::Watch, Stop> {
    let t = must_parse(s)?;
    ctx.input(s);
    ctx.input(p);
    model::take_calls();
    // the model serves for the size of the result only
    let want = model::run_s(f.clone(), p, &interp::root_env());
    model::take_calls();
    if want == Err(MErr::TooLarge) {
        return Err(Stop::Excluded("the result is too large for the harness"));
    }
    interp::take_watch();
    let got = interp::transform(&t, p);
    let w = interp::take_watch();
    model::take_calls();
    ctx.note(|| format!(
        "transforming {:?}\n  by {}: {} calls of user code, {}",
        short(s), short(&format!("{:?}", p)), w.late, if got.is_ok() { "successful" } else { "failing" }
    ));
    ctx.classify_if(w.greedy, "content which ignores errors (not judged)");
    ctx.classify_if(w.late == 0, "no user code called");
    ctx.classify_if(w.late > 10, "10+ calls of user code");
    ctx.classify_if(got.is_err(), "the transform fails");
    ctx.classify_if(w.failures > 0, "content fails");
    if let Some(what) = w.offence {
        return fail(format!("transforming {:?}\n  by {}: {}", short(s), short(&format!("{:?}", p)), what));
    }
    Ok(w)
}

fn c30_valid(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { cap: 200, ..DocCfg::default() });
    let p = gen::sprog(&mut ctx.src, &ProgCfg { depth: 4, ..c21_cfg() });
    let w = timely(ctx, &s, &f, &p)?;
    ctx.nontrivial(w.late > 1);
    Ok(())
}

fn c30_planted(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { cap: 150, ..DocCfg::small() });
    let mut p = gen::sprog(&mut ctx.src, &c21_cfg());
    let n = sites::count(&p);
    if n > 0 {
        for _ in 0..ctx.src.range(1, 3) {
            let at = ctx.src.below(n);
            plant_at(&mut ctx.src, &mut p, at);
        }
    }
    let w = timely(ctx, &s, &f, &p)?;
    ctx.nontrivial(w.failures > 0);
    Ok(())
}

/// Content that fails at every one of its events.
fn c30_broken(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { cap: 60, ..DocCfg::small() });
    let p = gen::sprog(&mut ctx.src, &ProgCfg { max_items: 3, ..ProgCfg::default() });
    let frag = gen::fragment(&mut ctx.src, &DocCfg { cap: 30, ..DocCfg::small() });
    let mut contents = 0;
    let mut q = p.clone();
    sites::sprog(&mut q, &mut |site| if let Site::Content(_) = site { contents += 1 });
    if contents == 0 {
        return Ok(());
    }
    let at = ctx.src.below(contents);
    let n = model::events(&frag.1).len();
    let mut failures = 0;
    for k in 0..(n + 2).min(40) {
        let mut q = p.clone();
        let mut i = 0;
        sites::sprog(&mut q, &mut |site| {
            if let Site::Content(c) = site {
                if i == at {
                    *c = Content::Broken(frag.clone(), k);
                }
                i += 1;
            }
        });
        let w = timely(ctx, &s, &f, &q)?;
        failures += w.failures;
        if w.late > 3_000 {
            break;
        }
    }
    ctx.nontrivial(failures > 0);
    Ok(())
}

/// Every failure in every context on small documents.
fn c30_small(ctx: &mut Ctx) -> Res {
    let per = CONTEXTS * FAILURES;
    let len = if ctx.thorough { 4 } else { 3 };
    let f = match small_forest(ctx.index / per, len) {
        Some(f) => f,
        None => return Ok(()),
    };
    let n = ctx.index % per;
    let p = match WAYS.with(|w| w.get((n % FAILURES) as usize).cloned()) {
        Some((p, _)) => p,
        None => return Ok(()),
    };
    let p = match context((n / FAILURES) as usize, p) {
        Some(p) => p,
        None => return Ok(()),
    };
    let s = model::render(&f);
    let w = timely(ctx, &s, &f, &p)?;
    ctx.nontrivial(w.late > 0);
    Ok(())
}

/// The builder of one of many elements fails: those of the later elements are not called.
fn c30_kth(ctx: &mut Ctx) -> Res {
    let n = if ctx.src.chance(1, 5) { 1 + ctx.src.size(20, 400) } else { ctx.src.range(1, 8) };
    let k = ctx.src.below(n);
    let depth = ctx.src.below(3);
    let sub = ctx.src.below(4);
    let how = ctx.src.below(12);
    let before = ctx.src.chance(1, 2);
    let texts = ctx.src.chance(1, 2);
    ctx.input(&(n, k, depth, sub, how, before, texts));
    let mut inner = String::new();
    for i in 0..n {
        if texts {
            inner.push_str("t<!---->");
        }
        // at different levels
        match if sub & 1 == 0 { i % 3 } else { 0 } {
            0 => inner.push_str("<a><i>x</i></a>"),
            1 => inner.push_str("<b><a k=\"v\">y<br></a></b>"),
            _ => inner.push_str("<b>z<b><a></a></b></b>"),
        }
    }
    let doc = format!("<p>{}{}{}</p>q", "<u>".repeat(depth), inner, "</u>".repeat(depth));
    let doc = if sub & 1 == 0 { doc } else { format!("<p>{}</p>q", inner) };
    let doc = if sub == 3 { inner } else { doc };
    let t = must_parse(&doc)?;
    let calls = Rc::new(std::cell::Cell::new(0));
    let counter = calls.clone();
    fn fails<'t>(e: BoxedElementApi<'t>, how: usize) -> BoxedApi<'t> {
        let bad = || Template::with_element("x y");
        match how {
            0 => e.set_attribute("x y", Some("v")).into_boxed(),
            1 => e.add_empty_attribute("x y").into_boxed(),
            2 => e.add_class("x y").into_boxed(),
            3 => e.set_id("x y").into_boxed(),
            4 => e.subselect("x y..", |e| e).into_boxed(),
            5 => e.prepend_contents(bad()).into_boxed(),
            6 => e.append_contents(bad()).into_boxed(),
            7 => e.replace_contents(bad()).into_boxed(),
            8 => e.replace(bad()).into_boxed(),
            9 => e.append(bad()).into_boxed(),
            10 => e.prepend(bad()).into_boxed(),
            _ => e.repeat_contents(0..3, move |h, i: i32| if i == 2 { h.append(bad()).into_boxed() } else { h.append(i).into_boxed() }).into_boxed(),
        }
    }
    #[derive(Clone)]
    struct At(Rc<std::cell::Cell<usize>>, usize, usize);
    impl At {
        fn build<'t>(&self, e: BoxedElementApi<'t>) -> BoxedApi<'t> {
            let i = self.0.get();
            self.0.set(i + 1);
            if i == self.1 { fails(e, self.2) } else { e.set_attribute("n", Some("1")).append(i).into_boxed() }
        }
    }
    let build = At(counter, k, how);
    let got = t.transform(move |h| {
        let h = h.into_boxed();
        let h = if before { h.append("end").into_boxed() } else { h };
        match sub {
            0 => h.select("a", move |e| build.build(e.into_boxed_element())).into_boxed(),
            1 => h.select("p", move |e| {
                // there is one p only
                let build = build.clone();
                e.subselect_direct("a", move |e| build.build(e.into_boxed_element())).into_boxed()
            }).into_boxed(),
            2 => h.select("p", move |e| {
                let build = build.clone();
                e.subselect("a", move |e| build.build(e.into_boxed_element())).into_boxed()
            }).into_boxed(),
            _ => h.select_direct("a", move |e| build.build(e.into_boxed_element())).into_boxed(),
        }
    });
    ctx.note(|| format!("builder {} of {} in {:?} fails", k, n, short(&doc)));
    ctx.nontrivial(k + 1 < n);
    if let Ok(t) = got {
        return fail(format!("the builder {} of {} in {:?} fails (in way {}), but not the transform: {:?}", k, n, short(&doc), how, short(&t.to_string())));
    }
    if calls.get() != k + 1 {
        return fail(format!(
            "the builder fails (in way {}) at call {} of {} in {:?}, but is called {} times",
            how, k + 1, n, short(&doc), calls.get()
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

/// A name that occurs in no message by accident.
fn odd_name(src: &mut Src) -> String {
    let n = if src.chance(1, 24) { src.range(8, 300) } else { src.range(3, 8) };
    let mut s = String::new();
    for _ in 0..n {
        s.push(*src.pick(&['q', 'x', 'z', 'j', 'k', 'v', 'w', 'Q', 'X', 'Z']));
    }
    s.push_str(&src.below(100).to_string());
    s
}

/// Layout that moves what follows to a position of its own.
fn filler(src: &mut Src) -> String {
    let mut s = String::new();
    for _ in 0..src.below(6) {
        s.push_str(src.pick(&["x", "\n", "\u{e9}", "\u{1f600}", "  ", "<!--\n\n-->", "yy"]));
    }
    s
}

struct Msg<'a>(&'a str);
impl<'a> Msg<'a> {
    fn has(&self, what: &str, part: &str) -> Res {
        if self.0.contains(part) {
            Ok(())
        } else {
            fail(format!("message {:?} does not mention the {} {:?}", self.0, what, part))
        }
    }
    /// A number standing alone.
    fn number(&self, what: &str, n: usize) -> Res {
        let want = n.to_string();
        if self.0.split(|c: char| !c.is_ascii_digit()).any(|w| w == want) {
            Ok(())
        } else {
            fail(format!("message {:?} does not mention the {} {}", self.0, what, n))
        }
    }
    /// The location is described, and its three coordinates are named as what they are.
    fn location(&self, l: Location) -> Res { self.location_from(0, l) }
    fn location_from(&self, at: usize, l: Location) -> Res {
        for (word, n) in &[("line", l.line()), ("column", l.column()), ("offset", l.offset())] {
            let rest = match self.0[at..].to_lowercase().find(word) {
                Some(i) => &self.0[at + i + word.len()..],
                None => return fail(format!("message {:?} does not name the {}", self.0, word)),
            };
            let digits: String = rest
                .chars()
                .skip_while(|c| !c.is_ascii_digit())
                .take_while(|c| c.is_ascii_digit())
                .collect();
            ensure!(digits == n.to_string(), "message {:?} gives {} {:?}, but it is {}", self.0, word, digits, n);
        }
        Ok(())
    }
    /// The position of a name that must be there.
    fn find(&self, what: &str, part: &str) -> Result<usize, Stop> {
        self.has(what, part)?;
        Ok(self.0.find(part).unwrap_or(0))
    }
}

/// What stands closest before the place: the word for an opening or for a closing tag?
fn role(msg: &str, at: usize) -> &'static str {
    let before = msg[..at].to_lowercase();
    match (before.rfind("open"), before.rfind("clos")) {
        (Some(o), Some(c)) => if o > c { "opening" } else { "closing" },
        (Some(_), None) => "opening",
        (None, Some(_)) => "closing",
        (None, None) => "none",
    }
}

fn identifier_message(m: &str, e: &IdentifierError) -> Res {
    let low = m.to_lowercase();
    match e {
        IdentifierError::Empty => ensure!(low.contains("empty"), "{:?} for an empty identifier", m),
        IdentifierError::NotAscii => ensure!(low.contains("ascii"), "{:?} for an identifier that is not ASCII", m),
        IdentifierError::Whitespace { whitespace: c } => {
            ensure!(low.contains("whitespace"), "{:?} for whitespace in an identifier", m);
            ensure!(!low.contains("forbidden"), "{:?} for whitespace in an identifier", m);
            shown(m, *c)?;
        }
        IdentifierError::Forbidden { forbidden: c } => {
            ensure!(!low.contains("whitespace"), "{:?} for a forbidden character in an identifier", m);
            shown(m, *c)?;
        }
    }
    Ok(())
}
/// The character is in the message, as itself or escaped.
fn shown(m: &str, c: char) -> Res {
    let escaped: String = c.escape_default().collect();
    let debug = format!("{:?}", c);
    let raw = !c.is_whitespace() && m.contains(c);
    ensure!(
        raw || m.contains(&escaped) || m.contains(&debug[1..debug.len() - 1]) || m.contains(&format!("'{}'", c)),
        "message {:?} does not show the character {:?}",
        m,
        c
    );
    Ok(())
}

fn parse_message(m: &str, e: &ParseError) -> Res {
    let msg = Msg(m);
    let low = m.to_lowercase();
    match e {
        ParseError::UnsupportedDoctype { location, doctype } => {
            msg.has("doctype", doctype)?;
            ensure!(low.contains("doctype"), "{:?} for a doctype", m);
            msg.location(*location)
        }
        ParseError::UnclosedDoctype { location } => {
            ensure!(low.contains("doctype"), "{:?} for a doctype", m);
            msg.location(*location)
        }
        ParseError::UnclosedComment { location } => {
            ensure!(low.contains("comment"), "{:?} for a comment", m);
            msg.location(*location)
        }
        ParseError::ExpectedOpeningTagClose { tag, location } => {
            let at = msg.find("tag", tag)?;
            ensure!(role(m, at) == "opening", "{:?}: {:?} is an opening tag", m, tag);
            msg.location(*location)
        }
        ParseError::ExpectedClosingTagClose { tag, location } => {
            let at = msg.find("tag", tag)?;
            ensure!(role(m, at) == "closing", "{:?}: {:?} is a closing tag", m, tag);
            msg.location(*location)
        }
        ParseError::ExpectedOpeningTagIdentifier { location } | ParseError::InvalidOpeningTagIdentifier { location, .. } => {
            ensure!(role(m, m.len()) == "opening", "{:?} for an opening tag", m);
            msg.location(*location)
        }
        ParseError::ExpectedClosingTagIdentifier { location } | ParseError::InvalidClosingTagIdentifier { location, .. } => {
            ensure!(role(m, m.len()) == "closing", "{:?} for a closing tag", m);
            msg.location(*location)
        }
        ParseError::InvalidAttributeIdentifier { location, .. } => {
            ensure!(low.contains("attribute"), "{:?} for an attribute", m);
            msg.location(*location)
        }
        ParseError::InvalidAttributeValue { location, tag, attribute_name }
        | ParseError::UnclosedAttributeValue { location, tag, attribute_name } => {
            let t = msg.find("tag", tag)?;
            let a = msg.find("attribute", attribute_name)?;
            if m.contains(&format!("{}.{}", attribute_name, tag)) {
                return fail(format!("{:?} names {:?} as an attribute of {:?}", m, tag, attribute_name));
            }
            let _ = (t, a);
            msg.location(*location)
        }
        ParseError::UnexpectedInput { location } => msg.location(*location),
        ParseError::MissingClosingTags { inner, others } => {
            let at = msg.find("innermost open tag", &inner.0)?;
            msg.location_from(at, inner.1)?;
            let mut last = at;
            for (t, _) in others {
                let at = msg.find("open tag", t)?;
                ensure!(at > last, "{:?} does not list the unclosed tags in order", m);
                last = at;
            }
            Ok(())
        }
        ParseError::StackLimitExceeded { tag, location, limit } => {
            let at = msg.find("tag", tag)?;
            msg.location_from(at, *location)?;
            let l = match low.find("limit") {
                Some(i) => i,
                None => return fail(format!("{:?} does not mention a limit", m)),
            };
            let digits: String =
                m[l..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
            ensure!(digits == limit.to_string(), "{:?}: the limit is {}", m, limit);
            Ok(())
        }
        ParseError::UnexpectedClosingTag { tag, location } => {
            let at = msg.find("tag", tag)?;
            ensure!(role(m, at) == "closing", "{:?}: {:?} is a closing tag", m, tag);
            msg.location(*location)
        }
        ParseError::MismatchedClosingTag { opening_tag, opening_location, closing_tag, closing_location } => {
            let o = msg.find("opening tag", opening_tag)?;
            let c = msg.find("closing tag", closing_tag)?;
            ensure!(role(m, o) == "opening", "{:?}: {:?} is the opening tag", m, opening_tag);
            ensure!(role(m, c) == "closing", "{:?}: {:?} is the closing tag", m, closing_tag);
            msg.location_from(o, *opening_location)?;
            msg.location_from(c, *closing_location)
        }
    }
}

#[allow(deprecated)]
fn cause_text(e: &dyn Error) -> Option<String> { e.cause().map(|c| c.to_string()) }

fn leads_to(e: &dyn Error, inner: &dyn Error) -> Res {
    let got = chain(e);
    let want = chain(inner);
    ensure!(
        got.len() == want.len() + 1 && got[1..] == want[..],
        "the causes of {:?} are {:?}, expected {:?}",
        e,
        &got[1..],
        want
    );
    Ok(())
}
fn leads_nowhere(e: &dyn Error) -> Res {
    match cause_text(e) {
        None => Ok(()),
        Some(c) => fail(format!("{:?} has the cause {:?}, although nothing else caused it", e, c)),
    }
}

/// The messages of the error itself and all its causes.
fn input_messages(e: &InputError) -> Res {
    let m = e.to_string();
    match e {
        InputError::LengthLimitExceeded { limit } => {
            Msg(&m).number("limit", *limit)?;
            ensure!(m.to_lowercase().contains("length"), "{:?} for the length limit", m);
            leads_nowhere(e)
        }
        InputError::Parse { error } => {
            leads_to(e, error)?;
            parse_message(&error.to_string(), error)?;
            match error {
                ParseError::InvalidAttributeIdentifier { identifier_error, .. }
                | ParseError::InvalidOpeningTagIdentifier { identifier_error, .. }
                | ParseError::InvalidClosingTagIdentifier { identifier_error, .. } => {
                    leads_to(error, identifier_error)?;
                    identifier_message(&identifier_error.to_string(), identifier_error)
                }
                other => leads_nowhere(other),
            }
        }
    }
}

/// A rejected text made of odd names; the shape is fixed, so that two of them differ in data only.
fn broken_text(shape: usize, src: &mut Src) -> (String, Option<usize>) {
    // never the same name in two roles
    let (a, b, c) = (odd_name(src) + "q", odd_name(src) + "x", odd_name(src) + "z");
    let pad = filler(src);
    let bad = *src.pick(&["\u{e9}", "a,", "a;", "&", "a&b", ";a", ",,"]);
    match shape {
        0 => (format!("{}<!doctype {}>", pad, a), None),
        1 => (format!("{}<!doctype {}", pad, a), None),
        2 => (format!("{}<!-- {}", pad, a), None),
        3 => (format!("{}<{} {}", pad, a, b), None),
        4 => (format!("{}<{}></{} ", pad, a, a), None),
        5 => (format!("{}<{}></{}", pad, a, b), None),
        6 => (format!("{}<>", pad), None),
        7 => (format!("{}</>", pad), None),
        8 => (format!("{}<{}>", pad, bad), None),
        9 => (format!("{}<{}></{}>", pad, a, bad), None),
        10 => (format!("{}<{} {}>", pad, a, bad), None),
        11 => (format!("{}<{} {}={}>", pad, a, b, c), None),
        12 => (format!("{}<{} {}=\"{}", pad, a, b, c), None),
        13 => (format!("{}<{}>", pad, a), None),
        14 => (format!("{}<{}><{}>{}<{}>", pad, a, b, filler(src), c), None),
        15 => {
            let limit = src.range(0, 3);
            let mut s = pad;
            for _ in 0..=limit {
                s.push_str(&format!("<{}>{}", odd_name(src), filler(src)));
            }
            (s, Some(limit))
        }
        16 => (format!("{}</{}>", pad, a), None),
        17 => (format!("{}<{}>{}</{}>", pad, a, filler(src), b), None),
        18 => (format!("{}<{} {} = >", pad, a, b), None),
        19 => (format!("{}<{} \"{}\">", pad, a, b), None),
        20 => (format!("{}<{}><{} />{}</{}>", pad, a, c, filler(src), b), None),
        _ => (format!("{}<script>{}", pad, a), None),
    }
}
const SHAPES: usize = 22;

fn parse_failure(s: &str, depth: Option<usize>) -> Result<InputError, Stop> {
    let mut o = ParseOptions::default();
    if let Some(d) = depth {
        o = o.max_stack_depth(d);
    }
    match Template::from_str(s, o) {
        Ok(_) => fail(format!("{:?} was accepted", s)),
        Err(e) => Ok(e),
    }
}

fn c27_parse(ctx: &mut Ctx) -> Res {
    let shape = (ctx.index % SHAPES as u64) as usize;
    let (s, depth) = broken_text(shape, &mut ctx.src);
    ctx.input(&s);
    ctx.nontrivial(true);
    let e = parse_failure(&s, depth)?;
    ctx.note(|| format!("{:?} gives {}", s, chain(&e).join(" / ")));
    input_messages(&e).map_err(|stop| at(stop, &s))?;
    // a second one of the same kind must be told apart
    let (s2, depth2) = broken_text(shape, &mut ctx.src);
    let e2 = parse_failure(&s2, depth2)?;
    differ(&e, &e2, &s, &s2)
}
fn at(stop: Stop, s: &str) -> Stop {
    match stop {
        Stop::Fail(m) => Stop::Fail(format!("{:?}: {}", short(s), m)),
        other => other,
    }
}

/// Different data show in different messages (the locations of outer unclosed tags excepted).
fn differ(e: &InputError, e2: &InputError, s: &str, s2: &str) -> Res {
    let data = |e: &InputError| match e {
        InputError::Parse { error: ParseError::MissingClosingTags { inner, others } } => {
            format!("missing {:?} {:?}", inner, others.iter().map(|o| o.0.clone()).collect::<Vec<_>>())
        }
        other => format!("{:?}", other),
    };
    let (a, b) = (chain(e), chain(e2));
    if data(e) != data(e2) {
        ensure!(a != b, "{:?} and {:?} have the same messages {:?}, but different data: {} / {}", s, s2, a, data(e), data(e2));
    } else {
        ensure!(a == b, "{:?} and {:?} have different messages {:?} and {:?} for the same data", s, s2, a, b);
    }
    Ok(())
}

/// Neighbouring values: any change of one datum shows.
fn c27_neighbours(ctx: &mut Ctx) -> Res {
    let shape = (ctx.index % SHAPES as u64) as usize;
    let (s, depth) = broken_text(shape, &mut ctx.src);
    let e = parse_failure(&s, depth)?;
    let mut t = s.clone();
    match ctx.src.below(4) {
        0 => t.insert(0, 'x'),
        1 => t.insert(0, '\n'),
        2 => t.insert(0, '\u{e9}'),
        _ => {
            // another letter or digit at some place of a name
            let spots: Vec<usize> = t.char_indices().filter(|(_, c)| "qxzjkvwQXZ".contains(*c)).map(|(i, _)| i).collect();
            if !spots.is_empty() {
                let at = *ctx.src.pick(&spots);
                t.replace_range(at..at + 1, "G");
            }
        }
    }
    ctx.input(&(&s, &t));
    ctx.nontrivial(s != t);
    if let Ok(e2) = parse_failure(&t, depth) {
        input_messages(&e2).map_err(|stop| at(stop, &t))?;
        differ(&e, &e2, &s, &t)?;
    }
    Ok(())
}

/// Defects of all kinds in generated documents.
fn c27_planted(ctx: &mut Ctx) -> Res {
    let s = match ctx.src.below(3) {
        0 => parsing::soup(&mut ctx.src),
        _ => parsing::planted(&mut ctx.src, &DocCfg::small()),
    };
    let o = if ctx.src.chance(1, 4) {
        ParseOptions::default().max_stack_depth(ctx.src.below(4))
    } else if ctx.src.chance(1, 4) {
        ParseOptions::default().max_input_len(ctx.src.below(s.len() + 1))
    } else {
        ParseOptions::default()
    };
    ctx.input(&s);
    match Template::from_str(&s, o) {
        Ok(_) => ctx.classify("accepted"),
        Err(e) => {
            ctx.nontrivial(true);
            // names may occur in the fixed text of messages here: only the causes and the location
            if let InputError::Parse { error } = &e {
                leads_to(&e, error)?;
                let text = format!("{:?}", error);
                if !text.contains('"') {
                    input_messages(&e).map_err(|stop| at(stop, &s))?;
                }
            } else {
                input_messages(&e).map_err(|stop| at(stop, &s))?;
            }
        }
    }
    Ok(())
}

fn file_messages(e: &FileError, path: &std::path::Path) -> Res {
    let m = e.to_string();
    Msg(&m).has("path", &path.display().to_string())?;
    let low = m.replace(&path.display().to_string(), "").to_lowercase();
    match e {
        FileError::Open { error, .. } => {
            ensure!(low.contains("open"), "{:?} for a file that cannot be opened", m);
            leads_to(e, error)
        }
        FileError::Read { error, .. } => {
            ensure!(low.contains("read"), "{:?} for a file that cannot be read", m);
            leads_to(e, error)
        }
        FileError::Decode { error, .. } => {
            ensure!(low.contains("decod"), "{:?} for a file that cannot be decoded", m);
            leads_to(e, error)
        }
        FileError::Input { error, .. } => {
            for w in &["open", "read", "decod"] {
                ensure!(!low.contains(w), "{:?} for a file that was read, but does not parse", m);
            }
            leads_to(e, error)?;
            input_messages(error)
        }
    }
}

fn c27_files(ctx: &mut Ctx) -> Res {
    let name = odd_name(&mut ctx.src);
    // a name of a file has 255 bytes at most
    let file = format!("{}-{}.html", &name[..name.len().min(200)], ctx.src.below(1000));
    let path = parsing::scratch_file(&file);
    let kind = ctx.src.below(6);
    let io = |r: std::io::Result<()>| r.map_err(|e| Stop::Harness(format!("{}", e)));
    ctx.input(&(file.clone(), kind));
    ctx.nontrivial(true);
    let mut o = ParseOptions::default();
    match kind {
        0 => {}
        1 => io(std::fs::create_dir_all(&path))?,
        2 => io(std::fs::write(&path, b"abc\xff\xfe"))?,
        3 => {
            o = o.max_input_len(ctx.src.below(5));
            io(std::fs::write(&path, b"<a>abcdef</a>"))?;
        }
        _ => {
            let shape = ctx.src.below(SHAPES);
            let (s, depth) = broken_text(shape, &mut ctx.src);
            if let Some(d) = depth {
                o = o.max_stack_depth(d);
            }
            io(std::fs::write(&path, s))?;
        }
    }
    let r = Template::from_file(&path, o);
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&path);
    let e = match r {
        Ok(_) => return fail(format!("file kind {} was accepted", kind)),
        Err(e) => e,
    };
    ctx.note(|| chain(&e).join(" / "));
    match (kind, &e) {
        (0, FileError::Open { .. }) | (2, FileError::Decode { .. }) | (3, FileError::Input { .. }) => {}
        (1, FileError::Open { .. }) | (1, FileError::Read { .. }) => {}
        (k, FileError::Input { .. }) if k > 3 => {}
        (k, e) => return fail(format!("file kind {} gives {:?}", k, e)),
    }
    file_messages(&e, &path)?;
    // as a failure of a transform
    let text = chain(&e);
    let s = StreamError::from(e);
    let outer = chain(&s);
    ensure!(outer[1..] == text[..], "the causes of {:?} are {:?}, expected {:?}", s, &outer[1..], text);
    Ok(())
}

/// The messages of a failing transform.
fn stream_messages(e: &StreamError) -> Res {
    match e {
        StreamError::Assertion { error } => {
            leads_to(e, error)?;
            let AssertionError::Malformed { error: reason } = error;
            leads_to(error, reason)?;
            leads_nowhere(reason)
        }
        StreamError::Input { error } => {
            leads_to(e, error)?;
            if let InputError::Parse { error: p } = error {
                leads_to(error, p)?;
            }
            Ok(())
        }
        StreamError::File { error } => leads_to(e, error),
        StreamError::Identifier { error } => {
            leads_to(e, error)?;
            leads_nowhere(error)?;
            identifier_message(&error.to_string(), error)
        }
        StreamError::Selector { error } => {
            use html5_fuser::select::{ClassesError, Error as E};
            leads_to(e, error)?;
            let m = error.to_string().to_lowercase();
            let (word, inner): (&str, &IdentifierError) = match error {
                E::Tag { error: i } => ("tag", i),
                E::Id { error: i } => ("id ", i),
                E::Class { error: i } => ("class", i),
                E::Classes { error: c } => {
                    leads_to(error, c)?;
                    return match c {
                        ClassesError::Empty => leads_nowhere(c),
                        ClassesError::Identifier { index, error: i } => {
                            Msg(&c.to_string()).number("index", *index)?;
                            leads_to(c, i)?;
                            identifier_message(&i.to_string(), i)
                        }
                    };
                }
            };
            ensure!(m.contains(word), "{:?} for a {} selector", m, word);
            leads_to(error, inner)?;
            identifier_message(&inner.to_string(), inner)
        }
        StreamError::StaticSelector { error } => {
            use html5_fuser::select::StaticError as E;
            leads_to(e, error)?;
            let m = error.to_string().to_lowercase();
            match error {
                E::Unrestricted => leads_nowhere(error),
                E::Tag { error: i } => {
                    ensure!(m.contains("tag") && !m.contains("class"), "{:?} for the tag of a selector", m);
                    leads_to(error, i)
                }
                E::Id { error: i } => {
                    ensure!(
                        m.contains("id ") && !m.contains("tag") && !m.contains("class"),
                        "{:?} for the id of a selector",
                        m
                    );
                    leads_to(error, i)
                }
                E::Class { index, error: i } => {
                    ensure!(m.contains("class") && !m.contains("tag"), "{:?} for the class of a selector", m);
                    Msg(&error.to_string()).number("index", *index)?;
                    leads_to(error, i)
                }
            }
        }
    }
}

/// Selector and identifier errors, with the class position counted from the first class.
fn c27_selectors(ctx: &mut Ctx) -> Res {
    let n = ctx.src.range(1, 6);
    let at = ctx.src.below(n);
    let bad = *ctx.src.pick(&["", "a b", "a=b", "\"", "a/", "<a", "a>", "&", "a,b", "x;", "\u{fc}", "a\tb", "\n", "\u{c}", "a\rb"]);
    let classes: Vec<&str> = (0..n).map(|i| if i == at { bad } else { "ok" }).collect();
    let tag = ctx.src.chance(1, 2);
    let kind = ctx.src.below(7);
    ctx.input(&(n, at, bad, tag, kind));
    ctx.nontrivial(true);
    let want = match refparse::check_ident(bad) {
        Err(e) => e,
        Ok(_) => return Err(Stop::Harness(format!("{:?} is valid", bad))),
    };
    let t = must_parse("<a></a>")?;
    let run = |text: String| {
        let s = gen::intern(&text);
        t.transform(|a| a.select(s, |e| e.remove())).map(|_| ())
    };
    let got: Result<(), StreamError> = match kind {
        0 => run(format!("{}.{}", if tag { "a" } else { "" }, classes.join("."))),
        1 => run(format!("a#{}", bad)),
        2 => run(format!("{}#x", if bad.is_empty() { "," } else { bad })),
        3 => bad.parse::<Id>().map(|_| ()).map_err(StreamError::from),
        4 => bad.parse::<Tag>().map(|_| ()).map_err(StreamError::from),
        5 => bad.parse::<Class>().map(|_| ()).map_err(StreamError::from),
        _ => Classes::from_str_iterator(classes.iter().cloned()).map(|_| ()).map_err(StreamError::from),
    };
    let e = match got {
        Ok(()) => return fail(format!("a selector with {:?} was accepted", bad)),
        Err(e) => e,
    };
    ctx.note(|| format!("{:?} in selector kind {}: {}", bad, kind, chain(&e).join(" / ")));
    stream_messages(&e)?;
    let all = chain(&e);
    let last = all.last().cloned().unwrap_or_default();
    if kind != 2 || !bad.is_empty() {
        let bad_error = match bad.parse::<Identifier>() {
            Err(e) => e,
            Ok(_) => return fail(format!("{:?} is accepted as identifier ({:?})", bad, want)),
        };
        ensure!(last == bad_error.to_string(), "{:?}: the chain {:?} does not lead to {:?}", bad, all, bad_error.to_string());
        identifier_message(&last, &bad_error)?;
    }
    if kind == 0 || kind == 6 {
        ensure!(
            all.iter().any(|m| Msg(m).number("index", at).is_ok()),
            "class {} is wrong, but the messages are {:?}",
            at,
            all
        );
    }
    Ok(())
}

/// What a malformed stream is reported as.
fn malformed_message(e: &StreamError) -> Res {
    if let StreamError::Assertion { error: AssertionError::Malformed { error: reason } } = e {
        let m = reason.to_string();
        let low = m.to_lowercase();
        match reason {
            MalformedReason::UnexpectedClosingTag { tag } => {
                Msg(&m).has("tag", &tag.to_string())?;
                ensure!(low.contains("clos"), "{:?} for a closing tag", m);
            }
            MalformedReason::ExpectedOpeningTag { event } => {
                ensure!(low.contains("open"), "{:?} for an expected opening tag", m);
                found(&m, event.as_ref().map(|e| e.description()))?;
            }
            MalformedReason::ExpectedClosingTag { event, tag } => {
                Msg(&m).has("tag", &tag.to_string())?;
                ensure!(low.contains("clos"), "{:?} for an expected closing tag", m);
                found(&m, event.as_ref().map(|e| e.description()))?;
            }
        }
    }
    Ok(())
}
fn found(m: &str, event: Option<&str>) -> Res {
    match event {
        Some(d) => Msg(m).has("event found", d),
        None => {
            ensure!(m.to_lowercase().contains("end"), "{:?} for the end of the stream", m);
            Ok(())
        }
    }
}

fn c27_transforms(ctx: &mut Ctx) -> Res {
    let (s, _) = doc(ctx, &DocCfg::tiny());
    let mut p = gen::sprog(&mut ctx.src, &ProgCfg { max_items: 3, depth: 2, ..ProgCfg::default() });
    if ctx.src.chance(1, 2) {
        let c = mangled(&mut ctx.src);
        let mut first = vec![SOp::Append(c)];
        first.push(select(
            Scope::Any,
            false,
            tag_sel(gen::tag(&mut ctx.src, 4)),
            only(vec![EOp::AppendContents(text("x")), subselect(Scope::Any, false, tag_sel("a"), only(vec![EOp::RemoveContents]))]),
        ));
        first.extend(p);
        p = first;
    } else {
        junk(&mut ctx.src, &mut p, 4);
    }
    ctx.input(&(&s, &p));
    if growth(&p) > 2000 {
        return Err(Stop::Excluded(TOO_LARGE));
    }
    let t = must_parse(&s)?;
    let _fuel = Fuel::new(2000);
    match interp::transform(&t, &p) {
        Ok(_) => ctx.classify("transform succeeds"),
        Err(e) => {
            ctx.nontrivial(true);
            ctx.classify_if(matches!(e, StreamError::Assertion { .. }), "malformed stream");
            ctx.note(|| chain(&e).join(" / "));
            stream_messages(&e)?;
            malformed_message(&e)?;
        }
    }
    Ok(())
}

/// Messages of different kinds of errors are different.
fn c27_kinds(ctx: &mut Ctx) -> Res {
    let n = ctx.index as usize;
    let (i, j) = (n / SHAPES, n % SHAPES);
    if i >= SHAPES {
        return Ok(());
    }
    ctx.input(&(i, j));
    // the same names and places, as far as possible
    let rng = || Src::replay(vec![]);
    let (a, da) = broken_text(i, &mut rng());
    let (b, db) = broken_text(j, &mut rng());
    let (ea, eb) = (parse_failure(&a, da)?, parse_failure(&b, db)?);
    let kind = |e: &InputError| format!("{:?}", e).split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).nth(2).map(|s| s.to_string());
    if kind(&ea) != kind(&eb) {
        ctx.nontrivial(true);
        let words = |e: &InputError| -> Vec<String> {
            chain(e).iter().map(|m| m.chars().filter(|c| c.is_ascii_lowercase() || *c == ' ').collect()).collect()
        };
        ensure!(words(&ea) != words(&eb), "{:?} and {:?} are told apart only by their data: {:?}", ea, eb, chain(&ea));
    }
    Ok(())
}

/// Counts up without an end (or nearly so), and knows how often it was asked.
struct Endless {
    next: usize,
    hint: (usize, Option<usize>),
    pulled: Rc<std::cell::Cell<usize>>,
}
impl Iterator for Endless {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        // an end far away, so that whoever tries to reach it does come back
        if self.next > 200_000 {
            return None;
        }
        self.next += 1;
        self.pulled.set(self.pulled.get() + 1);
        Some(self.next - 1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

/// Repetitions over iterators without an end, which fail at some item.
fn c21_endless(ctx: &mut Ctx) -> Res {
    let at = if ctx.src.chance(1, 6) { ctx.src.size(50, 3000) } else { ctx.src.below(6) };
    let hint = *ctx.src.pick(&[
        (usize::MAX, None),
        (usize::MAX, Some(usize::MAX)),
        (0, None),
        (1, None),
        (usize::MAX / 2 + 1, None),
        (usize::MAX - 1, Some(usize::MAX)),
        (1 << 40, None),
    ]);
    let op = ctx.src.below(4);
    let how = ctx.src.below(4);
    let (doc, level) = *ctx.src.pick(&[
        ("<a>x</a>", 0),
        ("<a/>", 0),
        ("t<p><a></a><a></a></p><a></a>", 0),
        ("<a><b>1</b><c/></a>", 1),
        ("<br class=\"k\">", 2),
    ]);
    let whole = ctx.src.chance(1, 5);
    ctx.input(&(at, hint, op, how, doc, whole));
    let pulled = Rc::new(std::cell::Cell::new(0));
    let items = Endless { next: 0, hint, pulled: pulled.clone() };
    let t = must_parse(doc)?;
    // every step of the repetition; those before the last add an element
    fn step<'t, S: html5_fuser::Stream + 'static>(
        html: html5_fuser::transform::Api<'t, S>,
        n: usize,
        at: usize,
        how: usize,
    ) -> html5_fuser::transform::Api<'t, Box<dyn html5_fuser::Stream>> {
        if n < at {
            return html.append(Template::with_element("b")).into_boxed();
        }
        match how {
            0 => html.append(Template::with_element("x y")).into_boxed(),
            1 => html.prepend(Template::with_element("x y")).into_boxed(),
            2 => html.replace(Template::with_element("x y")).into_boxed(),
            _ => html.append("kept").append(Template::with_element("x y")).append("t").into_boxed(),
        }
    }
    let got = t.transform(move |html| {
                if whole && op < 2 {
            return match op {
                0 => html.repeat(items, move |h, n| step(h, n, at, how)).into_boxed(),
                _ => html.repeat_or_else(items, move |h, n| step(h, n, at, how), |h| h).into_boxed(),
            };
        }
        let tag = match level {
            0 => "a",
            1 => "b",
            _ => "br",
        };
        let op = if level == 2 { op % 2 } else { op };
        html.select_once(tag, move |e| match op {
            0 => e.repeat(items, move |h, n| step(h, n, at, how)).into_boxed(),
            1 => e.repeat_or_else(items, move |h, n| step(h, n, at, how), |h| h).into_boxed(),
            2 => e.repeat_contents(items, move |h, n| step(h, n, at, how)).into_boxed(),
            _ => e.repeat_contents_or_else(items, move |h, n| step(h, n, at, how), |h| h).into_boxed(),
        })
        .into_boxed()
    });
    ctx.note(|| format!("operation {} on {:?} with hint {:?} fails at item {}", op, doc, hint, at));
    ctx.classify(["repeat", "repeat_or_else", "repeat_contents", "repeat_contents_or_else"][op]);
    ctx.nontrivial(true);
    match got {
        Err(StreamError::Identifier { error: html5_fuser::text::IdentifierError::Whitespace { whitespace: ' ' } }) => (),
        other => {
            return fail(format!(
                "a repetition without end which fails at item {} gives {:?}",
                at,
                other.map(|t| short(&t.to_string()))
            ))
        }
    }
    ensure!(
        pulled.get() > at && pulled.get() <= at + 2,
        "{} items were taken, but the one with number {} failed",
        pulled.get(),
        at
    );
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            level: "exploration",
            rule: "A case parses a text (arbitrary unicode, token soup, mutated or spiked documents, all short texts) under arbitrary limits, or runs a program with arbitrary names, selectors, failing, over-polled or malformed user streams on a template, and then displays, compares, re-parses and transforms everything that came out; any panic (overflow checks on), abort or stack overflow is a violation. Non-trivial: the text is not empty, or something wrong was planted.",
            parts: vec![
                part("parse", 150_000, 3_000_000, c04_parse),
                part("short", 26 * 26 * 26, 26 * 26 * 26 * 26, c04_short),
                part("names", 60_000, 1_000_000, c04_names),
                part("programs", 150_000, 2_000_000, c04_programs),
                part("malformed", 200_000, 2_000_000, c04_malformed),
                part("small streams", 4096, 32768, c04_small),
                part("endless repetitions", 10_000, 100_000, c21_endless),
            ],
            assumptions: &["operations stop being added after 3000 builder steps, and programs whose repetitions multiply to more than 2000 are set aside, to bound the size of results"],
            findings: vec![],
            exhaustive_parts: &["short", "small streams"],
        },
        Check {
            id: "C21",
            level: "fault_enumeration",
            rule: "A case plants a failure (invalid name, invalid selector, failed template, user stream failing at its k-th event) into a program, at a random place, at every place in turn, or (small streams) every kind of failure in every context on every small document; the reference model decides whether it is reached, and a reached failure must come back as exactly the planted error. Non-trivial: something was planted.",
            parts: vec![
                part("one failure", 120_000, 1_500_000, c21_one),
                part("every place", 40_000, 200_000, c21_every),
                part("every event", 30_000, 200_000, c21_broken),
                part("several failures", 60_000, 600_000, c21_several),
                part("valid programs", 40_000, 500_000, c21_valid),
                part("endless repetitions", 20_000, 200_000, c21_endless),
                part("small documents", forests(3) * CONTEXTS * FAILURES, forests(4) * CONTEXTS * FAILURES, c21_small),
            ],
            assumptions: &["which of several reached failures is reported is not specified"],
            findings: vec![],
            exhaustive_parts: &["small documents"],
        },
        Check {
            id: "C30",
            level: "exploration",
            rule: "A case runs a program whose builders, items and contents all note when they are called: never while a chain of operations is being built, never after some content has failed, no content again after its end; and a failure in the builder of the k-th of n elements leaves exactly k builder calls. Failures are planted at random places, at every event of a content, and in every context on small documents. Non-trivial: user code was called (valid programs, small documents), a content has failed (planted failures), or there are later elements.",
            parts: vec![
                part("valid programs", 100_000, 800_000, c30_valid),
                part("planted failures", 120_000, 1_000_000, c30_planted),
                part("every event", 20_000, 200_000, c30_broken),
                part("one builder fails", 60_000, 300_000, c30_kth),
                part("small documents", forests(3) * CONTEXTS * FAILURES, forests(4) * CONTEXTS * FAILURES, c30_small),
            ],
            assumptions: &["apply, apply_if and the other conditional operations run their builders while the chain is built, as documented"],
            findings: vec![],
            exhaustive_parts: &["small documents"],
        },
        Check {
            id: "C27",
            level: "exploration",
            rule: "A case provokes an error of a known kind (all parse errors, files, selectors, identifiers, failing and malformed streams) with names that occur in no fixed message, and judges the message and the messages of its causes: the data are mentioned, names and locations in the right roles, causes complete, and different data lead to different messages. Non-trivial: an error was provoked.",
            parts: vec![
                part("parse errors", 400_000, 2_000_000, c27_parse),
                part("neighbouring errors", 400_000, 2_000_000, c27_neighbours),
                part("planted defects", 200_000, 1_000_000, c27_planted),
                part("files", 20_000, 100_000, c27_files),
                part("selectors", 60_000, 400_000, c27_selectors),
                part("transforms", 200_000, 600_000, c27_transforms),
                part("kinds", (SHAPES * SHAPES) as u64, (SHAPES * SHAPES) as u64, c27_kinds),
            ],
            assumptions: &["roles are recognised by the words open, clos, line, column, offset, limit, attribute, tag, id and class in the messages"],
            findings: vec![],
            exhaustive_parts: &["kinds"],
        },
    ]
}
