//! C24 content kinds, C25 equality.

use super::text::{host, route, texts_of, CONTENT_ROUTES, HOST, ROUTES};
use super::*;
use crate::gen::DocCfg;
use crate::refparse::{self, encode, Ev};
use html5_fuser::event::{Event, IntoStream, Stream, StreamResult};
use html5_fuser::text::{Data, Identifier, IntoIdentifier, IntoValue, Value};
use html5_fuser::{ParseOptions, Template};
use std::rc::Rc;

fn stop<E: std::fmt::Debug>(e: E) -> Stop { Stop::Fail(format!("{:?}", e)) }

// ---------------------------------------------------------------- C24

/// Every kind of text content by every route gives the same as the plain static text.
fn c24_kinds(ctx: &mut Ctx) -> Res {
    let text = super::text::any_text(&mut ctx.src);
    let r = ctx.src.below(ROUTES);
    let (s, f) = if ctx.src.chance(1, 2) {
        (HOST.to_string(), host())
    } else {
        let (s, f) = gen::doc(&mut ctx.src, &DocCfg::small());
        let mut g = host();
        g.extend(f);
        (format!("{}{}", HOST, s), g)
    };
    ctx.input(&text);
    ctx.input(&r);
    let mut first: Option<Template> = None;
    for t in texts_of(&text) {
        let d = diff(ctx, &s, &f, &route(r, &t))?;
        let out = d.out.ok_or_else(|| Stop::Harness("text insertion fails".into()))?;
        match first {
            None => first = Some(out),
            Some(ref a) => ensure!(*a == out, "inserting {:?} as {:?} gives a template which is not equal", short(&text), t),
        }
    }
    // the same as a parsed template with that text
    if r < CONTENT_ROUTES && !text.is_empty() {
        let p = as_template(r, &encode(&text));
        let d = diff(ctx, &s, &f, &p)?;
        let out = d.out.ok_or_else(|| Stop::Harness("template insertion fails".into()))?;
        let a = first.unwrap();
        ensure!(a == out, "inserting the text {:?} is not equal to inserting it as template: {} / {}", short(&text), a, out);
    }
    ctx.classify_if(r < CONTENT_ROUTES, "content");
    ctx.classify_if(r >= CONTENT_ROUTES, "attribute value");
    ctx.nontrivial(!text.is_empty());
    Ok(())
}
/// The same program with the text inserted as a parsed template (whitespace texts are kept).
fn as_template(r: usize, encoded: &str) -> SProg {
    let frag = Rc::new((encoded.to_string(), vec![Node::Text(encoded.to_string())]));
    let mut p = route(r, &TextSrc::Static("x"));
    crate::sites::sprog(&mut p, &mut |s| {
        if let crate::sites::Site::Content(c) = s {
            *c = Content::Tmpl(frag.clone(), TmplBy::Ref);
        }
    });
    p
}

/// Decimal digits, by hand.
fn decimal(v: i128) -> String {
    let mut n = v.unsigned_abs();
    let mut digits = Vec::new();
    loop {
        digits.push(char::from(b'0' + (n % 10) as u8));
        n /= 10;
        if n == 0 {
            break;
        }
    }
    if v < 0 {
        digits.push('-');
    }
    digits.iter().rev().collect()
}

fn int_of(src: &mut Src, lo: i128, hi: i128) -> i128 {
    let pow = |src: &mut Src, base: i128| {
        let mut v: i128 = 1;
        let n = src.below(64);
        for _ in 0..n {
            if v > hi {
                break;
            }
            v *= base;
        }
        v
    };
    let v = match src.below(8) {
        0 => lo,
        1 => hi,
        2 => lo + src.below(20) as i128,
        3 => hi - src.below(20) as i128,
        4 => pow(src, 10) + src.below(5) as i128 - 2,
        5 => -(pow(src, 10) + src.below(5) as i128 - 2),
        6 => (if src.chance(1, 2) { -1 } else { 1 }) * (pow(src, 2) + src.below(3) as i128 - 1),
        _ => lo + (src.draw(u64::MAX) as i128) % (hi - lo + 1),
    };
    v.clamp(lo, hi)
}

fn put<S: IntoStream + Clone + 'static, V: IntoValue + Clone + 'static>(s: S, v: V, op: usize) -> Result<String, Stop>
where
    S::Stream: 'static,
{
    let t = must_parse("<p k=\"1\"><b></b></p>")?;
    let r = match op {
        0 => t.transform(move |a| a.prepend(s)),
        1 => t.transform(move |a| a.append(s)),
        2 => t.transform(move |a| a.replace(s)),
        3 => t.transform(move |a| a.select("p", move |e| e.prepend_contents(s.clone()))),
        4 => t.transform(move |a| a.select("p", move |e| e.append_contents(s.clone()))),
        5 => t.transform(move |a| a.select("p", move |e| e.replace_contents(s.clone()))),
        6 => t.transform(move |a| a.append(Ok::<_, html5_fuser::StreamError>(s))),
        7 => t.transform(move |a| a.select("p", move |e| e.add_attribute_with_value("n", v.clone()))),
        8 => t.transform(move |a| a.select("p", move |e| e.add_attribute("n", Some(v.clone())))),
        9 => t.transform(move |a| a.select("p", move |e| e.set_attribute_with_value("k", v.clone()))),
        10 => t.transform(move |a| a.select("p", move |e| e.set_attribute("k", Some(v.clone())))),
        11 => t.transform(move |a| a.select("p", move |e| e.replace_attribute_value_if_exists("k", v.clone()))),
        12 => t.transform(move |a| a.select("p", move |e| e.add_to_attribute("k", v.clone(), "-"))),
        _ => t.transform(move |a| a.select("p", move |e| e.add_to_attribute("k", "x", v.clone()))),
    };
    Ok(r.map_err(stop)?.to_string())
}
fn put_want(v: &str, op: usize) -> String {
    match op {
        0 => format!("{}<p k=\"1\"><b></b></p>", v),
        1 | 6 => format!("<p k=\"1\"><b></b></p>{}", v),
        2 => v.to_string(),
        3 => format!("<p k=\"1\">{}<b></b></p>", v),
        4 => format!("<p k=\"1\"><b></b>{}</p>", v),
        5 => format!("<p k=\"1\">{}</p>", v),
        7 | 8 => format!("<p k=\"1\" n=\"{}\"><b></b></p>", v),
        9 | 10 | 11 => format!("<p k=\"{}\"><b></b></p>", v),
        12 => format!("<p k=\"1-{}\"><b></b></p>", v),
        _ => format!("<p k=\"1{}x\"><b></b></p>", v),
    }
}
const INT_OPS: usize = 14;

fn integer(ctx: &mut Ctx, ty: usize, pick: impl Fn(&mut Src, i128, i128) -> i128, op: usize) -> Res {
    macro_rules! as_type {
        ($t:ty) => {{
            let v = pick(&mut ctx.src, <$t>::MIN as i128, <$t>::MAX as i128);
            ctx.input(&(ty, v, op));
            let x = v as $t;
            (v, put(x, x, op)?)
        }};
    }
    let (v, got) = match ty {
        0 => as_type!(u8),
        1 => as_type!(i8),
        2 => as_type!(u16),
        3 => as_type!(i16),
        4 => as_type!(u32),
        5 => as_type!(i32),
        6 => as_type!(u64),
        7 => as_type!(i64),
        8 => as_type!(usize),
        _ => as_type!(isize),
    };
    same_text(&format!("inserting the integer {} (type {}, operation {})", v, ty, op), &got, &put_want(&decimal(v), op))?;
    ctx.note(|| format!("{} -> {}", v, got));
    ctx.classify_if(v < 0, "negative");
    ctx.classify_if(v.unsigned_abs() > u64::from(u32::MAX).into(), "beyond 32 bits");
    ctx.nontrivial(v != 0);
    Ok(())
}
const SMALL_INTS: u64 = (256 + 256) * INT_OPS as u64;
/// All values of the 8 bit types in all operations.
fn c24_small_ints(ctx: &mut Ctx) -> Res {
    let n = ctx.index as usize;
    let (op, v) = (n % INT_OPS, n / INT_OPS);
    integer(ctx, v / 256, |_, lo, _| lo + (v % 256) as i128, op)
}
fn c24_ints(ctx: &mut Ctx) -> Res {
    let ty = ctx.src.below(10);
    let op = ctx.src.below(INT_OPS);
    integer(ctx, ty, int_of, op)
}

/// A user stream over any other, which counts how often its end was seen.
struct Counting<S>(S, Rc<std::cell::Cell<(usize, usize)>>);
impl<S: Stream> Stream for Counting<S> {
    fn next_event(&mut self) -> StreamResult {
        let r = self.0.next_event();
        let (e, n) = self.1.get();
        match r {
            Ok(Some(_)) => self.1.set((e + 1, n)),
            _ => self.1.set((e, n + 1)),
        }
        r
    }
}

/// Templates in every form, in every content operation, beside other contents.
fn c24_templates(ctx: &mut Ctx) -> Res {
    let (fs, ff) = gen::doc(&mut ctx.src, &DocCfg::small());
    let (s, f) = doc(ctx, &DocCfg::tiny());
    ctx.input(&fs);
    ctx.input(&s);
    let op = ctx.src.below(6);
    let t = must_parse(&format!("<w>{}</w>", s))?;
    let frag = must_parse(&fs)?;
    let kind = ctx.src.below(9);
    let ends = Rc::new(std::cell::Cell::new((0, 0)));
    let content = |k: usize| -> interp::DynStream {
        match k {
            0 => Box::new((&frag).into_stream()),
            1 => Box::new(frag.clone().into_stream()),
            2 => Box::new(Rc::new(frag.clone()).into_stream()),
            3 => Box::new(Ok::<_, html5_fuser::StreamError>(frag.clone()).into_stream()),
            4 => Box::new(Ok::<Result<Template, html5_fuser::template::InputError>, html5_fuser::StreamError>(
                Template::from_str(&fs, ParseOptions::default()),
            ).into_stream()),
            5 => Box::new(Counting((&frag).into_stream(), ends.clone()).into_stream()),
            6 => Box::new(Rc::new(std::cell::RefCell::new((&frag).into_stream())).into_stream()),
            7 => Box::new(Template::from_str(&fs, ParseOptions::default()).into_stream()),
            _ => Box::new(frag.transform(|a| a).into_stream()),
        }
    };
    let c = content(kind);
    let mut c = Some(c);
    let out = match op {
        0 => t.transform(move |a| a.prepend(c.take().unwrap())),
        1 => t.transform(move |a| a.append(c.take().unwrap())),
        2 => t.transform(move |a| a.replace(c.take().unwrap())),
        3 => t.transform(move |a| a.select_once("w", move |e| e.prepend_contents(c.take().unwrap()))),
        4 => t.transform(move |a| a.select_once("w", move |e| e.append_contents(c.take().unwrap()))),
        _ => t.transform(move |a| a.select_once("w", move |e| e.replace_contents(c.take().unwrap()))),
    }
    .map_err(stop)?;
    let (a, b) = (model::render(&f), model::render(&ff));
    let want = match op {
        0 => format!("{}<w>{}</w>", b, a),
        1 => format!("<w>{}</w>{}", a, b),
        2 => b.clone(),
        3 => format!("<w>{}{}</w>", b, a),
        4 => format!("<w>{}{}</w>", a, b),
        _ => format!("<w>{}</w>", b),
    };
    same_text(&format!("inserting {:?} as kind {} by operation {}", short(&fs), kind, op), &out.to_string(), &want)?;
    if kind == 5 {
        let n = events_of(&frag)?.len();
        ensure!(ends.get().0 == n, "a user stream of {} events was asked for {}", n, ends.get().0);
    }
    ctx.note(|| format!("{:?} kind {} operation {} -> {:?}", short(&fs), kind, op, short(&want)));
    ctx.classify_if(kind >= 5, "user-defined or shared stream");
    ctx.nontrivial(!b.is_empty() && !a.is_empty());
    Ok(())
}

fn c24_programs(ctx: &mut Ctx) -> Res {
    use gen::{e, s, t};
    let cfg = gen::ProgCfg::none()
        .with_s(&[(s::PREPEND, 4), (s::APPEND, 4), (s::REPLACE, 2), (s::SELECT, 12), (s::REPEAT, 1), (s::APPLY_TMPL, 1)])
        .with_e(&[
            (e::ADD_ATTR, 2), (e::ADD_ATTR_V, 2), (e::ADD_TO, 2), (e::REPLACE_IF, 1), (e::SET_ATTR, 2), (e::SET_ATTR_V, 2),
            (e::PREPEND_C, 4), (e::APPEND_C, 4), (e::REPLACE_C, 3), (e::SUB_CONTENTS, 2), (e::SUBSELECT, 2), (e::REPEAT_C, 1),
        ])
        .with_t(&[(t::NONE, 8), (t::STREAM, 5)]);
    let cfg = gen::ProgCfg { s_ops: 3, frag: DocCfg::small(), ..cfg };
    let (s, f) = doc(ctx, &DocCfg::small());
    let p = gen::sprog(&mut ctx.src, &cfg);
    // the same program with every content handed over in another way
    let mut q = p.clone();
    let pick: Vec<usize> = (0..8).map(|_| ctx.src.below(6)).collect();
    let mut n = 0;
    crate::sites::sprog(&mut q, &mut |s| {
        if let crate::sites::Site::Content(c) = s {
            n += 1;
            other_kind(c, pick[n % pick.len()]);
        }
    });
    let a = diff(ctx, &s, &f, &p)?;
    let b = diff(ctx, &s, &f, &q)?;
    if let (Some(x), Some(y)) = (&a.out, &b.out) {
        ensure!(x == y, "{:?} and {:?} give templates which are not equal: {} / {}", p, q, x, y);
    }
    ctx.nontrivial(a.changed && n > 0);
    Ok(())
}
fn other_kind(c: &mut Content, k: usize) {
    match c {
        Content::Tmpl(_, by) => {
            *by = [TmplBy::Ref, TmplBy::Owned, TmplBy::Rc, TmplBy::UserStream, TmplBy::RcCell, TmplBy::Ref][k].clone()
        }
        Content::Ok(inner) => {
            let mut inner = (**inner).clone();
            other_kind(&mut inner, k);
            *c = inner;
        }
        Content::Text(t) => {
            let text = match t {
                TextSrc::Static(s) | TextSrc::StaticValue(s) | TextSrc::StaticData(s) => (*s).to_string(),
                TextSrc::OwnedValue(s) | TextSrc::RefValue(s) | TextSrc::OwnedData(s) | TextSrc::RefData(s) => s.clone(),
                TextSrc::Int(_, v) => decimal(*v),
                TextSrc::Env(_) => return,
            };
            *t = texts_of(&text)[k].clone();
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- C25

/// A relative of a text: equal or different in one place.
fn relative(src: &mut Src, s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    let at = src.below(chars.len().max(1));
    let mut out = chars.clone();
    match src.below(10) {
        0 | 1 | 2 => {}
        3 if !chars.is_empty() => out[at] = if chars[at] == 'x' { 'y' } else { 'x' },
        4 if !chars.is_empty() => {
            // case
            let c = chars[at];
            out[at] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
        }
        5 if !chars.is_empty() => {
            out.remove(at);
        }
        6 => out.insert(at, 'q'),
        7 => out.push(*src.pick(&[' ', '\0', 'a', '&', '\u{65e5}', ';'])),
        8 => return encode(s),
        9 if chars.len() > 1 => out.swap(0, at),
        _ => {}
    }
    out.into_iter().collect()
}

fn values_of(s: &str) -> Vec<Value> {
    let k = gen::intern(s);
    let mut out = vec![
        Value::from_unencoded_static_str(k),
        Value::from_unencoded_str(s),
        Value::from_unencoded_str(s.to_string()),
        k.into_value(),
        (&Value::from_unencoded_str(s)).into_value(),
        Value::from_unencoded_static_str(gen::elsewhere(s)),
    ];
    out.push(out[0].clone());
    out.push(out[1].clone());
    if let Ok(n) = s.parse::<i64>() {
        if n.to_string() == s {
            out.push(n.into_value());
        }
    }
    if let Ok(n) = s.parse::<u8>() {
        if n.to_string() == s {
            out.push(n.into_value());
        }
    }
    out
}
fn datas_of(s: &str) -> Vec<Data> {
    let k = gen::intern(s);
    let mut out = vec![Data::from_unencoded_static_str(k), Data::from_unencoded_str(s), Data::from_unencoded_str(s.to_string())];
    out.extend(values_of(s).into_iter().map(Data::from));
    out.push(out[0].clone());
    out.push(out[2].clone());
    out
}

fn c25_texts(ctx: &mut Ctx) -> Res {
    let a = match ctx.src.below(5) {
        0 => decimal(int_of(&mut ctx.src, i64::MIN as i128, i64::MAX as i128)),
        1 => (ctx.src.below(300)).to_string(),
        _ => super::text::any_text(&mut ctx.src),
    };
    let b = relative(&mut ctx.src, &a);
    ctx.input(&(&a, &b));
    let want = a == b;
    let (va, vb, da, db) = (values_of(&a), values_of(&b), datas_of(&a), datas_of(&b));
    for (i, x) in va.iter().enumerate() {
        same_text("a value", &x.to_string(), &encode(&a))?;
        ensure!(*x == *x, "value {} of {:?} is not equal to itself", i, a);
        ensure!(x.as_encoded_ref() == x.clone().as_encoded_ref(), "encoded text of a clone differs");
        for (j, y) in vb.iter().enumerate() {
            let (xy, yx) = (x == y, y == x);
            ensure!(
                xy == want && yx == want && (x != y) == !want,
                "values {:?} (made by way {}) and {:?} (by way {}): == gives {} and {}, expected {}", a, i, b, j, xy, yx, want
            );
            ensure!(
                (x.as_encoded_ref() == y.as_encoded_ref()) == want,
                "encoded values {:?} (way {}) and {:?} (way {}) compare wrongly", a, i, b, j
            );
        }
        for (j, y) in va.iter().enumerate() {
            ensure!(x == y, "values of {:?} made by ways {} and {} are not equal", a, i, j);
        }
    }
    for (i, x) in da.iter().enumerate() {
        same_text("data", &x.to_string(), &encode(&a))?;
        for (j, y) in db.iter().enumerate() {
            let (xy, yx) = (x == y, y == x);
            ensure!(
                xy == want && yx == want && (x != y) == !want,
                "data {:?} (made by way {}) and {:?} (by way {}): == gives {} and {}, expected {}", a, i, b, j, xy, yx, want
            );
            ensure!(
                (x.as_encoded_ref() == y.as_encoded_ref()) == want,
                "encoded data {:?} (way {}) and {:?} (way {}) compare wrongly", a, i, b, j
            );
        }
        for (j, y) in da.iter().enumerate() {
            ensure!(x == y, "data of {:?} made by ways {} and {} are not equal", a, i, j);
        }
        for (j, y) in va.iter().enumerate() {
            ensure!(x.as_encoded_ref() == y.as_encoded_ref(), "data (way {}) and value (way {}) of {:?} differ", i, j, a);
        }
    }
    ctx.note(|| format!("{:?} == {:?}: {}", short(&a), short(&b), want));
    ctx.classify_if(want, "equal");
    ctx.classify_if(!want && a.len() == b.len(), "different, same length");
    ctx.classify_if(!want && a.to_lowercase() == b.to_lowercase(), "differ in case only");
    ctx.nontrivial(!a.is_empty());
    Ok(())
}

fn idents_of(s: &str) -> Vec<Identifier> {
    let k = gen::intern(s);
    let mut out = vec![
        s.parse::<Identifier>().expect("valid"),
        Identifier::from_static_str(k).expect("valid"),
        k.into_identifier().expect("valid"),
        Ok::<Identifier, html5_fuser::text::IdentifierError>(s.parse().expect("valid")).into_identifier().expect("valid"),
    ];
    out.push((&out[0]).into_identifier().expect("valid"));
    out.push(out[1].clone());
    out
}

fn c25_identifiers(ctx: &mut Ctx) -> Res {
    let n = ctx.src.size(6, 300).max(1);
    const C: &[char] = &['a', 'b', 'A', 'z', 'Z', '@', '[', '`', '{', '_', '-', '.', ':', '0', '9', '^', '~', '\x7f', '!', '#', '\\', '|', '\0', '\x1b'];
    let a: String = (0..n).map(|_| *ctx.src.pick(C)).filter(|c| refparse::check_ident(&c.to_string()).is_ok()).collect();
    let a = if a.is_empty() { "k".to_string() } else { a };
    let mut b: Vec<char> = a.chars().collect();
    let at = ctx.src.below(b.len());
    match ctx.src.below(5) {
        0 => {}
        1 => b = b.iter().map(|c| c.to_ascii_uppercase()).collect(),
        2 => {
            let c = (b[at] as u8 ^ 0x20) as char;
            if refparse::check_ident(&c.to_string()).is_ok() {
                b[at] = c
            }
        }
        3 => b.push('a'),
        _ => {
            let c = *ctx.src.pick(C);
            if refparse::check_ident(&c.to_string()).is_ok() {
                b[at] = c
            }
        }
    }
    let b: String = b.into_iter().collect();
    ctx.input(&(&a, &b));
    let low = |s: &str| -> Vec<u8> { s.bytes().map(|c| if (b'A'..=b'Z').contains(&c) { c + 32 } else { c }).collect() };
    let want = low(&a) == low(&b);
    for (i, x) in idents_of(&a).iter().enumerate() {
        for (j, y) in idents_of(&b).iter().enumerate() {
            ensure!(
                (x == y) == want && (y == x) == want && (x != y) == !want,
                "identifiers {:?} (way {}) and {:?} (way {}) are {}, expected {}", a, i, b, j, x == y, want
            );
        }
        same_text("an identifier", &x.to_string(), &a)?;
        for y in idents_of(&a) {
            ensure!(*x == y, "identifiers {:?} made in different ways are not equal", a);
        }
    }
    ctx.note(|| format!("{:?} == {:?}: {}", short(&a), short(&b), want));
    ctx.classify_if(want, "equal");
    ctx.nontrivial(a != b);
    Ok(())
}

fn lower(s: &str) -> String { s.to_ascii_lowercase() }
fn norm_attrs(a: &refparse::Attrs) -> refparse::Attrs { a.iter().map(|(n, v)| (lower(n), v.clone())).collect() }
/// Events with the case of names removed.
fn exact(evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .map(|e| match e {
            Ev::Open(t, a) => Ev::Open(lower(t), norm_attrs(a)),
            Ev::SelfClosed(t, a) => Ev::SelfClosed(lower(t), norm_attrs(a)),
            Ev::Void(t, a) => Ev::Void(lower(t), norm_attrs(a)),
            Ev::Close(t) => Ev::Close(lower(t)),
            e => e.clone(),
        })
        .collect()
}
/// What must differ for templates to be certainly different: also without text boundaries, the
/// kind of texts and the case of doctypes.
fn coarse(evs: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::new();
    for e in exact(evs) {
        match e {
            Ev::Text(t) | Ev::Raw(t) => {
                if let Some(Ev::Text(last)) = out.last_mut() {
                    last.push_str(&t);
                } else if !t.is_empty() {
                    out.push(Ev::Text(t));
                }
            }
            Ev::Doctype(d) => out.push(Ev::Doctype(lower(&d))),
            e => out.push(e),
        }
    }
    out
}

/// Change one thing somewhere in the document (or nothing).
fn nudge(src: &mut Src, f: &mut Forest) -> &'static str {
    let n = count(f);
    if n == 0 {
        return "nothing";
    }
    let mut at = src.below(n);
    let how = src.below(17);
    let pick = src.below(64);
    let mut what = "nothing";
    change(f, &mut at, how, pick, &mut what);
    what
}
fn count(f: &[Node]) -> usize {
    f.iter().map(|n| if let Node::Elem(e) = n { 1 + count(&e.kids) } else { 1 }).sum()
}
fn change(f: &mut Forest, at: &mut usize, how: usize, pick: usize, what: &mut &'static str) -> bool {
    for i in 0..f.len() {
        if *at == 0 {
            *what = apply_change(f, i, how, pick);
            return true;
        }
        *at -= 1;
        if let Node::Elem(e) = &mut f[i] {
            if change(&mut e.kids, at, how, pick, what) {
                return true;
            }
        }
    }
    false
}
fn flip(s: &mut String, pick: usize) {
    let mut b: Vec<char> = s.chars().collect();
    if !b.is_empty() {
        let i = pick % b.len();
        b[i] = if b[i].is_ascii_uppercase() { b[i].to_ascii_lowercase() } else { b[i].to_ascii_uppercase() };
        *s = b.into_iter().collect();
    }
}
fn apply_change(f: &mut Forest, i: usize, how: usize, pick: usize) -> &'static str {
    let raw_inside = matches!(&f[i], Node::Elem(e) if refparse::is_raw(&e.tag));
    let last = i + 1 == f.len();
    match (&mut f[i], how) {
        (Node::Elem(e), 0) => {
            flip(&mut e.tag, pick);
            "case of the tag"
        }
        (Node::Elem(e), 1) if !e.attrs.is_empty() => {
            let k = pick % e.attrs.len();
            flip(&mut e.attrs[k].0, pick / 7);
            "case of an attribute name"
        }
        (Node::Elem(e), 2) if !e.attrs.is_empty() => {
            let k = pick % e.attrs.len();
            match &mut e.attrs[k].1 {
                Some(v) => flip(v, pick / 7),
                None => e.attrs[k].1 = Some(String::new()),
            }
            "attribute value"
        }
        (Node::Elem(e), 3) if !e.attrs.is_empty() => {
            let k = pick % e.attrs.len();
            e.attrs[k].1 = match e.attrs[k].1 {
                None => Some(String::new()),
                Some(_) => None,
            };
            "presence of an attribute value"
        }
        (Node::Elem(e), 4) if e.attrs.len() > 1 => {
            let k = pick % (e.attrs.len() - 1);
            e.attrs.swap(k, k + 1);
            "order of attributes"
        }
        (Node::Elem(e), 5) => {
            e.attrs.push(("extra".into(), None));
            "one more attribute"
        }
        (Node::Elem(e), 6) if !e.attrs.is_empty() => {
            let k = pick % e.attrs.len();
            e.attrs.remove(k);
            "one attribute less"
        }
        (Node::Elem(e), 7) if e.kind == Kind::SelfClosed => {
            e.kind = Kind::Open;
            e.close = e.tag.clone();
            "self-closed"
        }
        (Node::Elem(e), 8) if e.kind == Kind::Open && e.kids.is_empty() => {
            e.kind = Kind::SelfClosed;
            e.close = String::new();
            "self-closed"
        }
        (Node::Elem(e), 9) if e.kind == Kind::Open && !raw_inside => {
            e.kids.push(Node::Comment("new".into()));
            "one more comment"
        }
        (Node::Elem(e), 10) if !raw_inside && e.kind != Kind::Void => {
            e.tag.push('x');
            if e.kind == Kind::Open {
                e.close = e.tag.clone();
            }
            "tag name"
        }
        (Node::Elem(e), 11) if e.kind == Kind::Open => {
            flip(&mut e.close, pick);
            "case of the closing tag"
        }
        (Node::Text(t), 0..=5) => {
            flip(t, pick);
            "text"
        }
        (Node::Raw(t), 0..=5) => {
            flip(t, pick);
            "raw text"
        }
        (Node::Text(t), 6..=9) => {
            t.push('x');
            "text"
        }
        (Node::Comment(c), 0..=9) => {
            flip(c, pick);
            "comment"
        }
        (_, 12) => {
            f.remove(i);
            "one node less"
        }
        (_, 13) if !last => {
            f.swap(i, i + 1);
            "order of nodes"
        }
        (Node::Comment(c), 14) => {
            let t = c.clone();
            f[i] = Node::Text(encode(&t));
            "kind of a node"
        }
        (Node::Elem(e), 15) if e.kind == Kind::Open && !raw_inside => {
            // the contents move behind the element
            let kids = std::mem::take(&mut e.kids);
            for (k, n) in kids.into_iter().enumerate() {
                f.insert(i + 1 + k, n);
            }
            "nesting"
        }
        (_, _) => "nothing",
    }
}

/// Ways to get a template with the content of a forest.
fn made(ctx: &mut Ctx, f: &Forest, way: usize) -> Result<Option<Template>, Stop> {
    Ok(Some(match way {
        0 => must_parse(&gen::source(&mut ctx.src, f))?,
        1 => must_parse(&model::render(f))?,
        2 => must_parse(&gen::source(&mut ctx.src, f))?.clone(),
        3 => must_parse(&gen::source(&mut ctx.src, f))?.transform(|a| a).map_err(stop)?,
        4 => must_parse("")?.transform({
            let t = must_parse(&gen::source(&mut ctx.src, f))?;
            move |a| a.append(t)
        }).map_err(stop)?,
        5 => {
            // put together from its nodes
            let mut out = must_parse("")?;
            for n in f {
                let t = must_parse(&gen::source(&mut ctx.src, std::slice::from_ref(n)))?;
                out = out.transform(move |a| a.append(t)).map_err(stop)?;
            }
            out
        }
        6 => {
            let t = must_parse(&gen::source(&mut ctx.src, f))?;
            t.transform(|a| a.repeat(0..1, |a, _| a)).map_err(stop)?
        }
        7 => {
            // attributes of top-level elements added by operations
            let mut out = must_parse("")?;
            for n in f {
                let t = match n {
                    Node::Elem(e) if !e.attrs.is_empty() => {
                        let mut bare = e.clone();
                        let attrs = std::mem::take(&mut bare.attrs);
                        let mut t = must_parse(&model::render(&[Node::Elem(bare)]))?;
                        for (k, v) in attrs {
                            let id: Identifier = match k.parse() {
                                Ok(i) => i,
                                Err(_) => return Ok(None),
                            };
                            // the value enters encoded, so only values without special characters
                            if v.as_ref().map(|v| encode(v) != *v).unwrap_or(false) {
                                return Ok(None);
                            }
                            let v = v.map(|v| Value::from_unencoded_str(&v));
                            t = t
                                .transform(move |a| {
                                    a.select_direct(AnyElement, move |e| e.add_attribute(&id, v.clone()))
                                })
                                .map_err(stop)?;
                        }
                        t
                    }
                    n => must_parse(&model::render(std::slice::from_ref(n)))?,
                };
                out = out.transform(move |a| a.append(t)).map_err(stop)?;
            }
            out
        }
        8 => {
            // with something removed again
            let t = must_parse(&format!("<zz></zz>{}<zz>b</zz>", model::render(f)))?;
            t.transform(|a| a.select_direct("zz", |e| e.remove())).map_err(stop)?
        }
        9 => {
            // with much removed again, in different places
            let mut text = String::new();
            for n in f.iter().map(Some).chain(Some(None)) {
                for i in 0..*ctx.src.pick(&[0, 1, 3, 12, 40, 300]) {
                    text.push_str(["<zz/>", "<zz>b</zz>", "<zz><zz></zz></zz>"][i % 3]);
                }
                if let Some(n) = n {
                    text.push_str(&model::render(std::slice::from_ref(n)));
                }
            }
            must_parse(&text)?.transform(|a| a.select_direct("zz", |e| e.remove())).map_err(stop)?
        }
        _ => {
            // through many operations without effect
            let t = must_parse(&gen::source(&mut ctx.src, f))?;
            let n = *ctx.src.pick(&[2, 5, 15, 60]);
            t.transform(|a| {
                let mut a = a.into_boxed();
                for i in 0..n {
                    a = match i % 5 {
                        0 => a.select("zz", |e| e.remove()).into_boxed(),
                        1 => a.prepend(Template::from_str("", Default::default())).into_boxed(),
                        2 => a.apply_if(true, |a| a).into_boxed(),
                        3 => a.append(Template::from_str("", Default::default())).into_boxed(),
                        _ => a.select_once("a", |e| e).into_boxed(),
                    };
                }
                a
            })
            .map_err(stop)?
        }
    }))
}

struct AnyElement;
impl html5_fuser::select::Selector for AnyElement {
    fn matches(&self, _: &Event) -> bool { true }
}

fn c25_templates(ctx: &mut Ctx) -> Res {
    let (_, f) = doc(ctx, &DocCfg { attrs: 3, ..DocCfg::small() });
    let mut g = f.clone();
    let what = nudge(&mut ctx.src, &mut g);
    if ctx.src.chance(1, 5) {
        nudge(&mut ctx.src, &mut g);
    }
    ctx.input(&model::render(&f));
    ctx.input(&model::render(&g));
    // a changed document may not be what its text says (a text may join its neighbour)
    let (rf, rg) = (model::render(&f), model::render(&g));
    let ef = refparse::parse(&rf, None).map_err(|e| Stop::Harness(format!("{:?} {:?}", rf, e)))?;
    let eg = match refparse::parse(&rg, None) {
        Ok(e) => e,
        Err(_) => return Ok(()),
    };
    if refparse::has_bang_tag(&eg) || refparse::has_bang_tag(&ef) {
        return Err(Stop::Excluded("F2: element name '!doctype' or '!--...'"));
    }
    let g = model::tree(&eg);
    let (w1, w2) = (ctx.src.below(11), ctx.src.below(11));
    let (x, y) = match (made(ctx, &f, w1)?, made(ctx, &g, w2)?) {
        (Some(x), Some(y)) => (x, y),
        _ => return Ok(()),
    };
    let about = |c: &str| format!("{} templates (made in ways {} and {}; change: {})\n   {}\n   {}", c, w1, w2, what, short(&rf), short(&rg));
    let (xy, yx) = (x == y, y == x);
    ensure!(xy == yx, "{}", about("== is not symmetric for"));
    ensure!((x != y) != xy, "{}", about("!= contradicts == for"));
    ensure!(x == x && y == y && x == x.clone() && y.clone() == y, "{}", about("== is not reflexive for"));
    if exact(&ef) == exact(&eg) {
        ensure!(xy, "{}", about("== is false for equal"));
        ctx.classify("equal");
        ctx.classify_if(rf != rg, "equal, differently spelled");
    } else if coarse(&ef) != coarse(&eg) {
        ensure!(!xy, "{}", about("== is true for different"));
        ctx.classify("different");
    } else {
        ctx.classify("not specified");
    }
    // transitivity, over a third one equal to the first by construction
    let z = match made(ctx, &f, (w1 + 1 + w2) % 11)? {
        Some(z) => z,
        None => return Ok(()),
    };
    ensure!(x == z, "templates of {:?} made in ways {} and {} are not equal", short(&rf), w1, (w1 + 1 + w2) % 11);
    ensure!((z == y) == xy, "{}", about("== is not transitive for"));
    ctx.note(|| about(if xy { "equal" } else { "different" }));
    ctx.nontrivial(what != "nothing");
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C24",
            level: "exploration",
            rule: "every value of the 8-bit and random values of all integer types (limits, powers of ten and two, random) by every content and value operation, against decimal digits made by hand; texts in all seven kinds and as template by every route; templates in nine forms including user-defined and shared streams; random programs, twice with different forms of the same contents. Non-trivial: the inserted content is not empty (0 for integers)",
            parts: vec![
                part("all 8-bit integers", SMALL_INTS, SMALL_INTS, c24_small_ints),
                part("integers", 400_000, 4_000_000, c24_ints),
                part("kinds of text", 60_000, 600_000, c24_kinds),
                part("kinds of templates", 250_000, 2_500_000, c24_templates),
                part("programs", 150_000, 1_500_000, c24_programs),
            ],
            assumptions: &["pointer-sized integers are 64 bits wide here"],
            findings: vec![],
            exhaustive_parts: &["all 8-bit integers"],
        },
        Check {
            id: "C25",
            level: "exploration",
            rule: "pairs of texts, identifiers and documents that are equal or differ in one place, each made in all (texts, identifiers) or two to three (documents) of the possible ways, compared in both directions; the expected answer comes from the generated contents. Non-trivial: not empty; changed",
            parts: vec![
                part("texts", 150_000, 1_500_000, c25_texts),
                part("identifiers", 200_000, 2_000_000, c25_identifiers),
                part("templates", 300_000, 3_000_000, c25_templates),
            ],
            assumptions: &["whether templates differing only in how a text is split, or in the case of a doctype, are equal is not specified and not checked"],
            findings: vec![],
            exhaustive_parts: &[],
        },
    ]
}

use super::selectors::events_of;
