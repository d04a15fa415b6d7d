//! C08 encoding, C09 identifiers.

use super::*;
use crate::gen::DocCfg;
use crate::refparse::{self, check_ident, decode, encode, Ev, IdentErr};
use html5_fuser::event::StreamError;
use html5_fuser::select::{self, Class, Classes, Id, IntoSelector, StaticError, Tag};
use html5_fuser::text::{Data, Identifier, IntoIdentifier, Value};
use html5_fuser::Template;
use std::rc::Rc;

// ---------------------------------------------------------------- C08

pub fn texts_of(s: &str) -> Vec<TextSrc> {
    let k = gen::intern(s);
    vec![
        TextSrc::Static(k),
        TextSrc::StaticValue(k),
        TextSrc::OwnedValue(s.to_string()),
        TextSrc::RefValue(s.to_string()),
        TextSrc::StaticData(k),
        TextSrc::OwnedData(s.to_string()),
        TextSrc::RefData(s.to_string()),
    ]
}

pub const CONTENT_ROUTES: usize = 9;
const VALUE_ROUTES: usize = 11;
pub const ROUTES: usize = CONTENT_ROUTES + VALUE_ROUTES;

/// A program which brings one text into the document `HOST` by one route.
pub fn route(n: usize, t: &TextSrc) -> SProg {
    let k = |s: &'static str| Name(s, NameBy::Static);
    let c = || Content::Text(t.clone());
    let e = |ops: Vec<EOp>| {
        vec![SOp::Select {
            scope: Scope::Any,
            once: false,
            sel: gen::tag_sel("p"),
            body: Rc::new(EProg { ops, tail: ETail::None, rest: vec![] }),
        }]
    };
    match n {
        0 => vec![SOp::Prepend(c())],
        1 => vec![SOp::Append(c())],
        2 => vec![SOp::Replace(c())],
        3 => e(vec![EOp::PrependContents(c())]),
        4 => e(vec![EOp::AppendContents(c())]),
        5 => e(vec![EOp::ReplaceContents(c())]),
        6 => vec![SOp::Append(Content::Ok(Box::new(c())))],
        7 => e(vec![EOp::SubSelectContents(Rc::new(vec![SOp::Replace(c())]))]),
        8 => e(vec![EOp::RepeatContents(Items { values: vec![1, 2], by: IterBy::Vec }, Rc::new(vec![SOp::Prepend(c())]))]),
        9 => e(vec![EOp::AddAttr(k("n"), Some(t.clone()))]),
        10 => e(vec![EOp::AddAttrValue(k("k"), t.clone())]),
        11 => e(vec![EOp::AddTo(k("k"), t.clone(), TextSrc::Static(" "))]),
        12 => e(vec![EOp::AddTo(k("l"), t.clone(), TextSrc::Static(","))]),
        13 => e(vec![EOp::AddTo(k("n"), t.clone(), TextSrc::Static(""))]),
        14 => e(vec![EOp::AddTo(k("k"), TextSrc::Static("z"), t.clone())]),
        15 => e(vec![EOp::ReplaceIfExists(k("k"), t.clone())]),
        16 => e(vec![EOp::SetAttr(k("k"), Some(t.clone()))]),
        17 => e(vec![EOp::SetAttrValue(k("l"), t.clone())]),
        18 => e(vec![EOp::SetAttrValue(k("n"), t.clone())]),
        _ => e(vec![EOp::AddTo(k("k"), t.clone(), t.clone()), EOp::AddTo(k("K"), t.clone(), t.clone())]),
    }
}

pub const HOST: &str = "<p k=\"v&amp;\" l>t&lt;</p><br>";

pub fn host() -> Forest {
    vec![
        Node::Elem(Elem {
            tag: "p".into(),
            close: "p".into(),
            attrs: vec![("k".into(), Some("v&amp;".into())), ("l".into(), None)],
            kind: Kind::Open,
            kids: vec![Node::Text("t&lt;".into())],
        }),
        Node::Elem(Elem { tag: "br".into(), close: String::new(), attrs: vec![], kind: Kind::Void, kids: vec![] }),
    ]
}

fn markup(evs: &[Ev]) -> Vec<String> {
    evs.iter()
        .filter_map(|e| match e {
            Ev::Text(_) | Ev::Raw(_) => None,
            Ev::Open(t, a) | Ev::SelfClosed(t, a) | Ev::Void(t, a) => {
                let names: Vec<&str> = a.iter().map(|(n, _)| n.as_str()).collect();
                Some(format!("<{} {}>", t, names.join(" ")))
            }
            Ev::Close(t) => Some(format!("</{}>", t)),
            Ev::Comment(c) => Some(format!("!{}", c)),
            Ev::Doctype(c) => Some(format!("!!{}", c)),
        })
        .collect()
}
fn all_text(evs: &[Ev]) -> String {
    evs.iter()
        .map(|e| match e {
            Ev::Text(t) | Ev::Raw(t) => t.as_str(),
            _ => "",
        })
        .collect()
}
fn all_values(evs: &[Ev]) -> Vec<&str> {
    let mut out = Vec::new();
    for e in evs {
        if let Ev::Open(_, a) | Ev::SelfClosed(_, a) | Ev::Void(_, a) = e {
            out.extend(a.iter().filter_map(|(_, v)| v.as_ref().map(|v| v.as_str())));
        }
    }
    out
}

/// `alone`: the document's own texts cannot run into the inserted one.
fn safe(ctx: &mut Ctx, s: &str, f: &Forest, p: &SProg, text: &str, content: bool, alone: bool) -> Res {
    let d = diff(ctx, s, f, p)?;
    let (out, want) = match (d.out, d.result) {
        (Some(o), Ok(w)) => (o, w),
        _ => return Err(Stop::Harness("program of text insertions failed".into())),
    };
    // what a reader of the output sees
    let r = out.to_string();
    let seen = match refparse::parse(&r, None) {
        Ok(e) => e,
        Err(e) => return fail(format!("inserting {:?} gives unreadable output {:?}: {:?}", short(text), short(&r), e)),
    };
    let wanted = model::events(&want);
    ensure!(markup(&seen) == markup(&wanted), "inserting {:?} changes the markup: {:?}", short(text), short(&r));
    same_text("the text read from the output", &all_text(&seen), &all_text(&wanted))?;
    ensure!(all_values(&seen) == all_values(&wanted), "attribute values of {:?} are not the ones set", short(&r));
    if content {
        ensure!(
            !alone || text.is_empty() || decode(&all_text(&seen)).contains(text),
            "decoding {:?} does not give back {:?}",
            short(&r),
            short(text)
        );
    } else {
        ensure!(
            !alone || all_values(&seen).iter().any(|v| decode(v).contains(text)),
            "decoding the values of {:?} does not give back {:?}",
            short(&r),
            short(text)
        );
    }
    // nothing is encoded again by reading and passing it on
    let again = must_parse(&r)?.transform(|a| a.append("")).map_err(|e| Stop::Fail(format!("{:?}", e)))?;
    same_text("the output after another pass", &again.to_string(), &r)
}

fn special(s: &str) -> bool { s.contains(|c| "<>&\"'".contains(c)) }

pub const CHARS: usize = 128 + 24;
fn nth_char(n: usize) -> char {
    const MORE: [char; 24] = [
        '\u{80}', '\u{85}', '\u{a0}', '\u{df}', '\u{fc}', '\u{ff}', '\u{131}', '\u{17f}', '\u{212a}', '\u{300}', '\u{7ff}',
        '\u{800}', '\u{2003}', '\u{2028}', '\u{200b}', '\u{20ac}', '\u{3000}', '\u{65e5}', '\u{fe64}', '\u{feff}',
        '\u{ff1c}', '\u{fffd}', '\u{1f600}', '\u{10ffff}',
    ];
    if n < 128 { n as u8 as char } else { MORE[n - 128] }
}
const FORMS: usize = 6;
fn form(n: usize, c: char) -> String {
    match n {
        0 => c.to_string(),
        1 => format!("x{}y", c),
        2 => format!("{}{}", c, c),
        3 => format!("{}amp;", c),
        4 => format!("&{}<", c),
        _ => format!("{}{}{}", "0123456789".repeat(3), c, "\u{fc}".repeat(9)),
    }
}
const CHAR_CASES: u64 = (CHARS * FORMS * ROUTES) as u64;

fn c08_chars(ctx: &mut Ctx) -> Res {
    let i = ctx.index as usize;
    let (r, i) = (i % ROUTES, i / ROUTES);
    let (f, c) = (i % FORMS, i / FORMS);
    let text = form(f, nth_char(c));
    for t in texts_of(&text) {
        safe(ctx, HOST, &host(), &route(r, &t), &text, r < CONTENT_ROUTES, true)?;
    }
    ctx.nontrivial(true);
    Ok(())
}

pub fn any_text(src: &mut Src) -> String {
    match src.below(6) {
        0 => {
            // a filler of a critical length with something special somewhere
            let n = src.size(24, 9000);
            let unit = *src.pick(&["x", "\u{fc}", "\u{65e5}", "\u{1f600}", " ", "ab"]);
            let mut s = String::new();
            while s.len() < n {
                s.push_str(unit);
            }
            let bits: usize = src.below(4);
            for _ in 0..bits {
                let mut at = src.below(s.len() + 1);
                while !s.is_char_boundary(at) {
                    at -= 1;
                }
                let at = match src.below(3) {
                    0 => at,
                    1 => s.len(),
                    _ => 0,
                };
                s.insert_str(at, *src.pick(&["<", ">", "&", "\"", "<b>", "&amp;", "'", "&lt;b&gt;"]));
            }
            s
        }
        1 => {
            let n = src.size(12, 200);
            (0..n).map(|_| nth_char(src.below(CHARS))).collect()
        }
        2 => {
            let n = src.size(6, 5000);
            let u = *src.pick(&["<", ">", "&", "\"", "&amp;", "<>", "&&\""]);
            u.repeat(n)
        }
        _ => gen::plain(src, 400),
    }
}

fn c08_texts(ctx: &mut Ctx) -> Res {
    let text = any_text(&mut ctx.src);
    let r = ctx.src.below(ROUTES);
    let t = texts_of(&text)[ctx.src.below(7)].clone();
    let p = route(r, &t);
    if ctx.src.chance(1, 2) {
        safe(ctx, HOST, &host(), &p, &text, r < CONTENT_ROUTES, true)?;
    } else {
        let (s, f) = gen::doc(&mut ctx.src, &DocCfg { mix: [6, 12, 3, 2, 0, 1, 1], ..DocCfg::small() });
        let mut f2 = host();
        f2.extend(f);
        let s2 = format!("{}{}", HOST, s);
        safe(ctx, &s2, &f2, &p, &text, r < CONTENT_ROUTES, false)?;
    }
    ctx.classify_if(text.len() > 200, "text of 200+ bytes");
    ctx.classify_if(r < CONTENT_ROUTES, "content");
    ctx.classify_if(r >= CONTENT_ROUTES, "attribute value");
    ctx.nontrivial(special(&text));
    Ok(())
}

/// Random programs that only insert texts and values.
fn c08_programs(ctx: &mut Ctx) -> Res {
    use gen::{e, s, t};
    let cfg = gen::ProgCfg::none()
        .with_s(&[(s::PREPEND, 3), (s::APPEND, 3), (s::REPLACE, 1), (s::SELECT, 12), (s::REPEAT, 2), (s::APPLY_TMPL, 1)])
        .with_e(&[
            (e::ADD_ATTR, 3), (e::ADD_ATTR_V, 3), (e::ADD_TO, 6), (e::REPLACE_IF, 3), (e::SET_ATTR, 3), (e::SET_ATTR_V, 3),
            (e::PREPEND_C, 3), (e::APPEND_C, 3), (e::REPLACE_C, 2), (e::SUBSELECT, 3), (e::ADD_CLASS, 2), (e::REMOVE_CLASS, 2),
        ])
        .with_t(&[(t::NONE, 10), (t::STREAM, 3), (t::REPEAT, 2)]);
    let cfg = gen::ProgCfg { s_ops: 3, ..cfg };
    let (s, f) = doc(ctx, &DocCfg::small());
    let p = gen::sprog(&mut ctx.src, &cfg);
    let d = diff(ctx, &s, &f, &p)?;
    ctx.nontrivial(d.changed && d.out.map(|o| o.to_string().contains('&')).unwrap_or(false));
    Ok(())
}

/// Texts handed on through several templates and transforms.
fn c08_generations(ctx: &mut Ctx) -> Res {
    let text = any_text(&mut ctx.src);
    ctx.input(&text);
    let n = ctx.src.range(1, 5);
    let mut cur = must_parse(HOST)?;
    let mut model = host();
    let mut value = Value::from_unencoded_str(&text);
    let mut data = Data::from_unencoded_str(&text);
    for _ in 0..n {
        let how = ctx.src.below(6);
        ctx.input(&how);
        match how {
            0 => {
                cur = cur.transform(|a| a.append(&data)).map_err(err)?;
                model.push(Node::Text(encode(&text)));
            }
            1 => {
                // a template into a template
                let inner = cur.clone();
                cur = cur.transform(|a| a.prepend(&inner)).map_err(err)?;
                let mut m = model.clone();
                m.extend(model);
                model = m;
            }
            2 => {
                cur = cur
                    .transform(|a| a.select("p", |e| e.add_to_attribute("k", &value, " ")))
                    .map_err(err)?;
                for n in model.iter_mut() {
                    if let Node::Elem(e) = n {
                        if e.tag == "p" {
                            let v = e.attrs[0].1.take().unwrap_or_default();
                            e.attrs[0].1 = Some(format!("{} {}", v, encode(&text)));
                        }
                    }
                }
            }
            3 => {
                // conversions and clones keep the text as it is
                data = Data::from(value.clone());
                value = value.clone();
                cur = cur.clone();
            }
            4 => {
                cur = must_parse(&cur.to_string())?;
                let mut merged: Forest = Vec::new();
                for n in model {
                    match (merged.last_mut(), n) {
                        (Some(Node::Text(a)), Node::Text(b)) => a.push_str(&b),
                        (_, n) => merged.push(n),
                    }
                }
                merged.retain(|n| *n != Node::Text(String::new()));
                model = merged;
            }
            _ => {
                cur = cur
                    .transform(|a| a.apply_as_template(|t| t.transform(|a| a.append(value.clone()))))
                    .map_err(err)?;
                model.push(Node::Text(encode(&text)));
            }
        }
        same_text("the template after a step", &cur.to_string(), &model::render(&model))?;
        for (what, shown) in [
            ("Value", value.to_string()),
            ("Value::as_encoded_ref", value.as_encoded_ref().to_string()),
            ("Data", data.to_string()),
            ("Data::as_encoded_ref", data.as_encoded_ref().to_string()),
        ] {
            same_text(&format!("{} of {:?}", what, short(&text)), &shown, &encode(&text))?;
        }
    }
    ctx.note(|| format!("{:?} through {} steps -> {:?}", short(&text), n, short(&cur.to_string())));
    ctx.nontrivial(special(&text));
    Ok(())
}
fn err(e: StreamError) -> Stop { Stop::Fail(format!("an insertion failed: {:?}", e)) }

/// The text types themselves.
fn c08_types(ctx: &mut Ctx) -> Res {
    let text = any_text(&mut ctx.src);
    ctx.input(&text);
    let want = encode(&text);
    let k = gen::intern(&text);
    let values = vec![
        ("Value::from_unencoded_str", Value::from_unencoded_str(&text)),
        ("Value::from_unencoded_str(String)", Value::from_unencoded_str(text.clone())),
        ("Value::from_unencoded_static_str", Value::from_unencoded_static_str(k)),
        ("str::into_value", html5_fuser::text::IntoValue::into_value(k)),
    ];
    for (what, v) in &values {
        same_text(what, &v.to_string(), &want)?;
        same_text(what, &v.as_encoded_ref().to_string(), &want)?;
        same_text("clone", &v.clone().to_string(), &want)?;
        same_text("&Value::into_value", &html5_fuser::text::IntoValue::into_value(v).to_string(), &want)?;
        let d = Data::from(v.clone());
        same_text("Data::from(Value)", &d.to_string(), &want)?;
        same_text("Data::from(Value)", &d.as_encoded_ref().to_string(), &want)?;
        ensure!(decode(&v.to_string()) == text, "decoding {:?} does not give back {:?}", v, text);
    }
    for (what, d) in [
        ("Data::from_unencoded_str", Data::from_unencoded_str(&text)),
        ("Data::from_unencoded_static_str", Data::from_unencoded_static_str(k)),
    ] {
        same_text(what, &d.to_string(), &want)?;
        same_text(what, &d.as_encoded_ref().to_string(), &want)?;
        same_text("clone", &d.clone().to_string(), &want)?;
    }
    ctx.note(|| format!("{:?} -> {:?}", short(&text), short(&want)));
    ctx.nontrivial(special(&text));
    Ok(())
}

// ---------------------------------------------------------------- C09

const NAME_FORMS: usize = 7;
fn name_form(n: usize, c: char) -> String {
    match n {
        0 => c.to_string(),
        1 => format!("x{}", c),
        2 => format!("{}x", c),
        3 => format!("x{}y", c),
        4 => format!("a{}b{}c", c, '='),
        5 => format!("{}{}{}", "abcdefgh".repeat(5), c, "Z".repeat(20)),
        _ => format!(" {}\u{fc}", c),
    }
}

type Got = Result<String, IdentErr>;

fn stream_ident(e: StreamError) -> Result<IdentErr, String> {
    match e {
        StreamError::Identifier { error } => Ok(refparse::ident_err(&error)),
        StreamError::Selector { error } => match error {
            select::Error::Tag { error }
            | select::Error::Id { error }
            | select::Error::Class { error } => Ok(refparse::ident_err(&error)),
            select::Error::Classes { error: select::ClassesError::Identifier { index: 0, error } } => {
                Ok(refparse::ident_err(&error))
            }
            other => Err(format!("{:?}", other)),
        },
        StreamError::StaticSelector { error } => match error {
            StaticError::Tag { error }
            | StaticError::Id { error }
            | StaticError::Class { error, .. } => Ok(refparse::ident_err(&error)),
            other => Err(format!("{:?}", other)),
        },
        other => Err(format!("{:?}", other)),
    }
}

/// Every route by which a name can enter; each must accept or reject it alike.
fn name_routes(name: &str) -> Result<Vec<(&'static str, Got)>, Stop> {
    let k = gen::intern(name);
    let own = |i: Identifier| i.to_string_text();
    let mut out: Vec<(&'static str, Got)> = vec![
        ("Identifier::from_str", name.parse::<Identifier>().map(own).map_err(|e| refparse::ident_err(&e))),
        ("Identifier::from_static_str", Identifier::from_static_str(k).map(own).map_err(|e| refparse::ident_err(&e))),
        ("str::into_identifier", k.into_identifier().map(own).map_err(|e| refparse::ident_err(&e))),
        (
            "Template::with_element",
            Template::with_element(k).map(|_| name.to_string()).map_err(|e| refparse::ident_err(&e)),
        ),
    ];
    macro_rules! sel {
        ($what:expr, $res:expr) => {{
            let r: Result<_, StreamError> = $res.map_err(StreamError::from);
            let r = match r {
                Ok(_) => Ok(name.to_string()),
                Err(e) => match stream_ident(e) {
                    Ok(e) => Err(e),
                    Err(m) => return fail(format!("{} of {:?} fails with {}", $what, name, m)),
                },
            };
            out.push(($what, r));
        }};
    }
    sel!("Tag::from_str", name.parse::<Tag>());
    sel!("Id::from_str", name.parse::<Id>());
    sel!("Class::from_str", name.parse::<Class>());
    sel!("Classes::from_str_iterator", Classes::from_str_iterator([name].iter().cloned()));
    if !name.contains('#') && !name.contains('.') && !name.is_empty() {
        sel!("static tag selector", k.into_selector());
    }
    if !name.contains('.') {
        sel!("static id selector", gen::intern(&format!("#{}", name)).into_selector());
        sel!("static class selector", gen::intern(&format!(".{}", name)).into_selector());
        sel!("static combined selector", gen::intern(&format!("t#{}.c", name)).into_selector());
        sel!("static combined class", gen::intern(&format!("t#i.c.{}", name)).into_selector());
    }
    let t = must_parse("<p k=\"v\"></p>")?;
    let v = "1";
    macro_rules! op {
        ($what:expr, |$e:ident| $body:expr) => {{
            let r = t.transform(|a| a.select("p", move |$e| $body));
            let r = match r {
                Ok(_) => Ok(name.to_string()),
                Err(e) => match stream_ident(e) {
                    Ok(e) => Err(e),
                    Err(m) => return fail(format!("{} with {:?} fails with {}", $what, name, m)),
                },
            };
            out.push(($what, r));
        }};
    }
    op!("add_attribute", |e| e.add_attribute(k, None::<Value>));
    op!("add_attribute_with_value", |e| e.add_attribute_with_value(k, v));
    op!("add_empty_attribute", |e| e.add_empty_attribute(k));
    op!("add_to_attribute", |e| e.add_to_attribute(k, v, " "));
    op!("replace_attribute_value_if_exists", |e| e.replace_attribute_value_if_exists(k, v));
    op!("set_attribute", |e| e.set_attribute(k, None::<Value>));
    op!("set_attribute_with_value", |e| e.set_attribute_with_value(k, v));
    op!("set_empty_attribute", |e| e.set_empty_attribute(k));
    op!("remove_attribute", |e| e.remove_attribute(k));
    op!("add_class", |e| e.add_class(k));
    op!("remove_class", |e| e.remove_class(k));
    op!("set_id", |e| e.set_id(k));
    Ok(out)
}

trait TextOf {
    fn to_string_text(&self) -> String;
}
impl TextOf for Identifier {
    fn to_string_text(&self) -> String { format!("{}", self) }
}

fn valid_everywhere(ctx: &mut Ctx, name: &str) -> Res {
    ctx.input(name);
    if name.contains('\'') {
        ctx.classify("contains a single quote (not specified)");
        return Ok(());
    }
    let want: Got = check_ident(name).map(|_| name.to_string());
    for (what, got) in name_routes(name)? {
        ensure!(got == want, "{} of {:?} gives {:?}, expected {:?}", what, short(name), got, want);
    }
    // in parsed text: what the tag's word is, follows from the dialect
    for text in [
        format!("<{0}></{0}>", name),
        format!("<p {}></p>", name),
        format!("<p {}=\"v\"></p>", name),
        format!("<{}/>", name),
    ] {
        let got = interp::parse(&text);
        let want = refparse::parse(&text, None);
        let same = match (&got, &want) {
            (Ok(t), Ok(e)) => t.to_string() == refparse::render(e),
            (Err(html5_fuser::template::InputError::Parse { error }), Err(w)) => {
                let g = refparse::perr(error);
                g.kind == w.kind && g.ident == w.ident
            }
            _ => false,
        };
        ensure!(same, "parsing {:?} gives {:?}, expected {:?}", short(&text), got.map(|t| t.to_string()), want);
    }
    match &want {
        Ok(_) => {
            ctx.classify("valid name");
            // the spelling is kept where the name shows up
            let k = gen::intern(name);
            let out = must_parse("<p></p>")?
                .transform(|a| a.select("p", |e| e.add_empty_attribute(k).add_class(k).set_id(k)).append(Template::with_element(k)))
                .map_err(|e| Stop::Fail(format!("{:?} is valid but fails: {:?}", name, e)))?;
            let tail = if refparse::is_void(name) { "" } else { " /" };
            // an attribute which already has the name class or id takes part in the edits
            let mut attrs: refparse::Attrs = vec![(name.to_string(), None)];
            if refparse::same(name, "class") {
                attrs[0].1 = Some(name.to_string());
            } else {
                attrs.push(("class".into(), Some(name.to_string())));
            }
            attrs.retain(|(n, _)| !refparse::same(n, "id"));
            attrs.push(("id".into(), Some(name.to_string())));
            let mut want = String::from("<p");
            refparse::render_attrs(&mut want, &attrs);
            want.push_str(&format!("></p><{}{}>", name, tail));
            same_text("spelling of the name in the output", &out.to_string(), &want)?;
        }
        Err(IdentErr::Empty) => ctx.classify("empty name"),
        Err(IdentErr::NotAscii) => ctx.classify("name which is not ASCII"),
        Err(IdentErr::Whitespace(_)) => ctx.classify("name with whitespace"),
        Err(IdentErr::Forbidden(_)) => ctx.classify("name with forbidden character"),
    }
    ctx.note(|| format!("{:?}: {:?}", short(name), want));
    Ok(())
}

const NAME_CASES: u64 = (CHARS * NAME_FORMS) as u64 + 1;
fn c09_chars(ctx: &mut Ctx) -> Res {
    let i = ctx.index as usize;
    if i == CHARS * NAME_FORMS {
        ctx.nontrivial(true);
        return valid_everywhere(ctx, "");
    }
    let name = name_form(i % NAME_FORMS, nth_char(i / NAME_FORMS));
    ctx.nontrivial(true);
    valid_everywhere(ctx, &name)
}

fn any_name(src: &mut Src) -> String {
    const BITS: &[&str] = &[
        "a", "b", "x", "A", "Z", "-", "_", "0", "div", ":", "!", "@", "#", "*", "(", ")", "[", "+", "?", "$", "%", "^", "|",
        "~", "`", "{", "}", "\\",
    ];
    const BAD: &[&str] = &[
        "=", "\"", "/", ">", "<", "&", ",", ";", " ", "\t", "\n", "\r", "\u{b}", "\u{c}", "\u{fc}", "\u{65e5}", "\u{a0}",
        "\u{2003}", "\u{130}", "\u{212a}", "\u{17f}", "\u{0}", "\u{7f}", "\u{1c}", "\u{85}",
    ];
    let n = src.size(10, 300);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(src.pick(BITS));
    }
    let bad = src.weighted(&[6, 6, 3, 1]);
    for _ in 0..bad {
        let at = match src.below(3) {
            0 => src.below(s.chars().count() + 1),
            1 => 0,
            _ => s.chars().count(),
        };
        let at = s.char_indices().nth(at).map(|x| x.0).unwrap_or(s.len());
        s.insert_str(at, *src.pick(BAD));
    }
    s
}

fn c09_names(ctx: &mut Ctx) -> Res {
    let name = any_name(&mut ctx.src);
    ctx.nontrivial(name.len() > 1);
    valid_everywhere(ctx, &name)
}

/// Several invalid names in one list of classes or one static selector: the first one counts.
fn c09_lists(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let n = src.size(5, 70);
    let names: Vec<String> = (0..n)
        .map(|_| if src.chance(1, 6) { any_name(src) } else { (*src.pick(&["a", "b", "C", "x-y"])).to_string() })
        .map(|s| s.replace('\'', "").replace('.', "").replace('#', ""))
        .collect();
    ctx.input(&names);
    let first_bad = names.iter().enumerate().find_map(|(i, s)| check_ident(s).err().map(|e| (i, e)));
    let got = Classes::from_str_iterator(names.iter().map(|s| s.as_str()));
    match (&got, &first_bad) {
        (Err(select::ClassesError::Empty), None) if names.is_empty() => {}
        (Ok(_), None) if !names.is_empty() => {}
        (Err(select::ClassesError::Identifier { index, error }), Some((i, e)))
            if index == i && refparse::ident_err(error) == *e => {}
        _ => return fail(format!("class list {:?} gives {:?}, expected {:?}", names, got, first_bad)),
    }
    // tag#id.class.class...
    if names.len() >= 2 {
        let with_tag = !names[0].is_empty();
        let text = format!("{}#{}{}", names[0], names[1], names[2..].iter().map(|c| format!(".{}", c)).collect::<String>());
        let got = gen::intern(&text).into_selector();
        let good = match (&got, &first_bad) {
            (got, Some((0, IdentErr::Empty))) => {
                // no tag at all: the rest decides
                let rest = names[1..].iter().enumerate().find_map(|(i, s)| check_ident(s).err().map(|e| (i + 1, e)));
                match (got, rest) {
                    (Ok(_), None) => true,
                    (Err(StaticError::Id { error }), Some((1, e))) => refparse::ident_err(error) == e,
                    (Err(StaticError::Class { index, error }), Some((i, e))) => {
                        index + 2 == i && refparse::ident_err(error) == e
                    }
                    _ => false,
                }
            }
            (Ok(_), None) => true,
            (Err(StaticError::Tag { error }), Some((0, e))) => with_tag && refparse::ident_err(error) == *e,
            (Err(StaticError::Id { error }), Some((1, e))) => refparse::ident_err(error) == *e,
            (Err(StaticError::Class { index, error }), Some((i, e))) => {
                index + 2 == *i && refparse::ident_err(error) == *e
            }
            _ => false,
        };
        ensure!(good, "selector {:?} gives {:?}, expected {:?}", text, got, first_bad);
    }
    ctx.note(|| format!("{:?}: {:?}", names, first_bad));
    ctx.classify_if(first_bad.is_some(), "list with an invalid name");
    ctx.nontrivial(names.len() > 1);
    Ok(())
}

/// Equality of identifiers, and of the names used in selections and attribute edits.
fn c09_equality(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let a: String = any_name(src).chars().filter(|c| check_ident(&c.to_string()).is_ok() && !"'.#!".contains(*c)).collect();
    let a = if a.is_empty() { "a".to_string() } else { a };
    // a relative of it
    let mut b = a.clone();
    let how = src.below(6);
    let at = src.below(b.len());
    let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    match how {
        0 => b = b.chars().map(flip).collect(),
        1 => {
            let c = b.as_bytes()[at] as char;
            b.replace_range(at..at + 1, &flip(c).to_string())
        }
        2 => {
            // characters which differ in the case bit only
            let c = (b.as_bytes()[at] ^ 0x20) as char;
            if check_ident(&c.to_string()).is_ok() && !"'.#!".contains(c) {
                b.replace_range(at..at + 1, &c.to_string())
            }
        }
        3 => b.push('x'),
        4 => {
            b.remove(at);
            if b.is_empty() {
                b.push('q')
            }
        }
        _ => {}
    }
    ctx.input(&(&a, &b));
    let want = a.to_ascii_lowercase() == b.to_ascii_lowercase();
    let x: Identifier = a.parse().map_err(|e| Stop::Harness(format!("{:?} {:?}", a, e)))?;
    let y: Identifier = Identifier::from_static_str(gen::intern(&b)).map_err(|e| Stop::Harness(format!("{:?} {:?}", b, e)))?;
    for (p, q, what) in [(&x, &y, "=="), (&y, &x, "== (swapped)"), (&x.clone(), &y.clone(), "== of clones")] {
        ensure!((p == q) == want, "{:?} {} {:?} is {}, expected {}", a, what, b, p == q, want);
        ensure!((p != q) != want, "!= of {:?} and {:?} contradicts ==", a, b);
    }
    ensure!(x == x && x == x.clone(), "{:?} is not equal to itself", a);
    ensure!(&*x == a.as_str() && x.to_string_text() == a && &*y == b.as_str(), "spelling of {:?} or {:?} is lost: {} {}", a, b, x, y);
    // in use
    let (ka, kb) = (gen::intern(&a), gen::intern(&b));
    let text = format!("<{0} {0}=\"1\"></{0}>", a);
    let kind = |t: &Template| t.to_string();
    let hit = must_parse(&text)?
        .transform(|t| t.select(kb, |e| e.replace("!")))
        .map_err(|e| Stop::Fail(format!("{:?}", e)));
    if !refparse::is_void(&a) && !refparse::is_raw(&a) && !refparse::same(&a, "class") && !refparse::same(&a, "id") {
        let hit = hit?;
        let expect = if want { "!".to_string() } else { text.clone() };
        same_text(&format!("selecting {:?} in {:?}", b, text), &kind(&hit), &expect)?;
        let removed = must_parse(&text)?
            .transform(|t| t.select(ka, |e| e.remove_attribute(kb)))
            .map_err(|e| Stop::Fail(format!("{:?}", e)))?;
        let expect = if want { format!("<{0}></{0}>", a) } else { text.clone() };
        same_text(&format!("removing attribute {:?} in {:?}", b, text), &kind(&removed), &expect)?;
        let closed = interp::parse(&format!("<{}></{}>", a, b));
        ensure!(closed.is_ok() == want, "<{}></{}> parses as {:?}", a, b, closed.map(|t| t.to_string()));
        ctx.classify("used in a document");
    }
    ctx.classify_if(want && a != b, "equal, differently spelled");
    ctx.classify_if(!want, "different");
    ctx.note(|| format!("{:?} == {:?}: {}", a, b, want));
    ctx.nontrivial(a != b);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C08",
            level: "exploration",
            rule: "every ASCII and selected other characters in several surroundings by every route and text kind (all content and attribute operations), random texts of critical lengths, random programs of insertions, and histories of templates put into templates; output compared with the model, read back by the reference parser and decoded. Non-trivial: enumerated case, or the text has a character with a meaning in markup",
            parts: vec![
                part("all characters by all routes", CHAR_CASES, CHAR_CASES, c08_chars),
                part("texts", 300_000, 3_000_000, c08_texts),
                part("programs of insertions", 250_000, 2_500_000, c08_programs),
                part("generations", 200_000, 2_000_000, c08_generations),
                part("text types", 300_000, 3_000_000, c08_types),
            ],
            assumptions: &["the reference parser decides what a reader of the output sees"],
            findings: vec![],
            exhaustive_parts: &["all characters by all routes"],
        },
        Check {
            id: "C09",
            level: "exploration",
            rule: "every ASCII and selected other characters at several positions of a name on all 29 routes for names, random names with several defects, lists of names, pairs of related names for equality in all its uses. Non-trivial: enumerated case, name of 2+ bytes, or pair of different spellings",
            parts: vec![
                part("all characters at all positions", NAME_CASES, NAME_CASES, c09_chars),
                part("names", 150_000, 1_500_000, c09_names),
                part("lists of names", 300_000, 3_000_000, c09_lists),
                part("equality", 300_000, 3_000_000, c09_equality),
            ],
            assumptions: &["names with single quotes are left out (not specified, see F1)"],
            findings: vec![],
            exhaustive_parts: &["all characters at all positions"],
        },
    ]
}
