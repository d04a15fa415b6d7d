//! C31 (rendering to any writer).

use super::ops::{forests, small_forest};
use super::*;
use crate::gen::{DocCfg, ProgCfg};
use html5_fuser::event::{IntoStream, Stream};
use html5_fuser::text::{Data, Value};
use html5_fuser::{ParseOptions, Template};
use std::fmt::{self, Display, Write};
use std::io;

/// Takes what is written until something fails: the given call, or what exceeds the given size.
struct Sink {
    text: String,
    calls: usize,
    fail_at: usize,
    room: usize,
    failed: bool,
    after: usize,
}
impl Sink {
    fn new(fail_at: usize, room: usize) -> Sink {
        Sink { text: String::new(), calls: 0, fail_at, room, failed: false, after: 0 }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        if self.calls >= self.fail_at || self.text.len() + s.len() > self.room {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.calls += 1;
        self.text.push_str(s);
        Ok(())
    }
}

/// Takes a few bytes at a time, and so many in total; sometimes it is interrupted.
struct Bytes {
    data: Vec<u8>,
    step: usize,
    room: usize,
    interrupt: bool,
    failed: bool,
    after: usize,
}
impl io::Write for Bytes {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after += 1;
        }
        if self.interrupt {
            self.interrupt = false;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = buf.len().min(self.step).min(self.room - self.data.len());
        if n == 0 && !buf.is_empty() {
            self.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, "no room"));
        }
        self.interrupt = self.data.len() % 3 == 1;
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// One writer which fails, judged.
fn failing(what: &str, full: &str, x: &dyn Display, at: usize, room: usize) -> Res {
    let mut w = Sink::new(at, room);
    let out = write!(w, "{}", x);
    let about = || format!("{} {:?} to a writer failing at its call {} or after {} bytes", what, short(full), at, room);
    if !full.starts_with(&w.text) {
        return fail(format!("{} writes {:?}", about(), short(&w.text)));
    }
    match (out, w.failed) {
        (Ok(()), true) => return fail(format!("{} succeeds with {:?}", about(), short(&w.text))),
        (Err(_), false) => return fail(format!("{} fails without a failure of the writer", about())),
        (Ok(()), false) if w.text != full => return fail(format!("{} writes only {:?}", about(), short(&w.text))),
        _ => (),
    }
    if w.after > 0 {
        return fail(format!("{} goes on writing after the failure", about()));
    }
    Ok(())
}

/// Everything that is asked of any rendering.
fn writers(ctx: &mut Ctx, what: &str, x: &dyn Display) -> Res {
    let full = x.to_string();
    let mut w = Sink::new(usize::MAX, usize::MAX);
    if write!(w, "{}", x).is_err() {
        return fail(format!("{} {:?} fails without a reason", what, short(&full)));
    }
    same_text(&format!("{} into a writer", what), &w.text, &full)?;
    let calls = w.calls;
    ctx.nontrivial(calls > 1);
    ctx.classify_if(calls > 5, "more than 5 pieces");
    ctx.classify_if(calls <= 1, "a single piece");
    // every call of the writer fails once, or some of very many
    if calls <= 40 {
        for k in 0..calls + 1 {
            failing(what, &full, x, k, usize::MAX)?;
        }
    } else {
        for _ in 0..25 {
            let k = ctx.src.below(calls + 1);
            failing(what, &full, x, k, usize::MAX)?;
        }
    }
    for _ in 0..3 {
        let room = ctx.src.below(full.len() + 1);
        failing(what, &full, x, usize::MAX, room)?;
    }
    // bytes
    let step = ctx.src.range(1, 9);
    let room = if ctx.src.chance(1, 2) { full.len() + 5 } else { ctx.src.below(full.len() + 1) };
    let mut b = Bytes { data: Vec::new(), step, room, interrupt: ctx.src.chance(1, 2), failed: false, after: 0 };
    let out = io::Write::write_fmt(&mut b, format_args!("{}", x));
    if !full.as_bytes().starts_with(&b.data)
        || out.is_ok() != (b.data.len() == full.len())
        || out.is_ok() == b.failed
        || b.after > 0
    {
        return fail(format!(
            "{} {:?} to a writer taking {} bytes at a time and {} in total gives {:?} with {:?}",
            what, short(&full), step, room, out, short(&String::from_utf8_lossy(&b.data))
        ));
    }
    let twice = format!("<{}|{}>", x, x);
    same_text(&format!("{} twice", what), &twice, &format!("<{}|{}>", full, full))
}

/// The options of a format string change nothing in a template.
fn options(ctx: &mut Ctx, t: &Template) -> Res {
    let full = t.to_string();
    let n = *ctx.src.pick(&[0, 1, 3, 8, 20, 100, 1000]);
    let (how, got) = match ctx.src.below(9) {
        0 => ("{:n$}", format!("{:n$}", t, n = n)),
        1 => ("{:>n$}", format!("{:>n$}", t, n = n)),
        2 => ("{:^n$}", format!("{:^n$}", t, n = n)),
        3 => ("{:*<n$}", format!("{:*<n$}", t, n = n)),
        4 => ("{:.n$}", format!("{:.n$}", t, n = n)),
        5 => ("{:#}", format!("{:#}", t)),
        6 => ("{:+}", format!("{:+}", t)),
        7 => ("{:0n$}", format!("{:0n$}", t, n = n)),
        _ => ("{:_>+#0n$.1}", format!("{:_>+#0n$.1}", t, n = n)),
    };
    ctx.classify(how);
    same_text(&format!("rendering with {} for n = {}", how, n), &got, &full)
}

fn template(ctx: &mut Ctx, t: &Template) -> Res {
    ctx.note(|| format!("{:?}", short(&t.to_string())));
    writers(ctx, "rendering", t)?;
    options(ctx, t)
}

fn c31_documents(ctx: &mut Ctx) -> Res {
    let cfg = if ctx.src.chance(1, 6) { DocCfg { cap: 3_000, ..DocCfg::default() } } else { DocCfg { cap: 200, ..DocCfg::default() } };
    let (s, _) = doc(ctx, &cfg);
    ctx.input(&s);
    let t = must_parse(&s)?;
    template(ctx, &t)
}

fn c31_results(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg { cap: 100, ..DocCfg::small() });
    let p = gen::sprog(&mut ctx.src, &ProgCfg { depth: 3, max_items: 3, ..ProgCfg::default() });
    ctx.input(&s);
    ctx.input(&p);
    model::take_calls();
    let want = model::run_s(f, &p, &interp::root_env());
    model::take_calls();
    if want == Err(MErr::TooLarge) {
        return Err(Stop::Excluded("the result is too large for the harness"));
    }
    let t = must_parse(&s)?;
    let out = interp::transform(&t, &p);
    model::take_calls();
    match out {
        Ok(t) => template(ctx, &t),
        Err(_) => Ok(()),
    }
}

fn c31_small(ctx: &mut Ctx) -> Res {
    let len = if ctx.thorough { 6 } else { 5 };
    let f = match small_forest(ctx.index, len) {
        Some(f) => f,
        None => return Ok(()),
    };
    let t = must_parse(&model::render(&f))?;
    template(ctx, &t)
}

/// Texts, names, events and selectors' errors on their own.
fn c31_parts(ctx: &mut Ctx) -> Res {
    let (s, _) = doc(ctx, &DocCfg { cap: 100, ..DocCfg::small() });
    let text = super::errors::any_string(&mut ctx.src, 10, 200);
    ctx.input(&s);
    ctx.input(&text);
    let t = must_parse(&s)?;
    let mut events = (&t).into_stream();
    while let Ok(Some(e)) = events.next_event() {
        writers(ctx, "rendering an event", &e)?;
    }
    writers(ctx, "rendering a value", &Value::from_unencoded_str(&text))?;
    writers(ctx, "rendering data", &Data::from_unencoded_str(&text))?;
    writers(ctx, "rendering encoded text", &Value::from_unencoded_str(&text).as_encoded_ref())?;
    if let Ok(name) = interp::ident(&text) {
        writers(ctx, "rendering a name", &name)?;
    }
    Ok(())
}

/// The messages of errors.
fn c31_errors(ctx: &mut Ctx) -> Res {
    let s = super::parsing::soup(&mut ctx.src);
    ctx.input(&s);
    let mut options = ParseOptions::default();
    if ctx.src.chance(1, 8) {
        options = options.max_stack_depth(ctx.src.below(2));
    }
    if ctx.src.chance(1, 8) {
        options = options.max_input_len(ctx.src.below(5));
    }
    let e = match Template::from_str(&s, options) {
        Err(e) => e,
        Ok(t) => return template(ctx, &t),
    };
    fn all(ctx: &mut Ctx, e: &dyn std::error::Error) -> Res {
        writers(ctx, "the message of an error", &e)?;
        match e.cause() {
            Some(c) => all(ctx, c),
            None => Ok(()),
        }
    }
    ctx.note(|| format!("{:?} gives {:?}", short(&s), e.to_string()));
    all(ctx, &e)?;
    let name = ctx.src.pick(&["", "a b", "a>", "\u{e9}", "..", "a#b#c"]).to_string();
    match ctx.src.below(6) {
        0 => interp::ident(&name).err().map(|e| all(ctx, &e)),
        1 => name.parse::<html5_fuser::select::Tag>().err().map(|e| all(ctx, &e)),
        2 => name.parse::<html5_fuser::select::Class>().err().map(|e| all(ctx, &e)),
        3 => name.parse::<html5_fuser::select::Id>().err().map(|e| all(ctx, &e)),
        4 => Template::from_file("/nonexistent/none.html", ParseOptions::default()).err().map(|e| all(ctx, &e)),
        _ => {
            let bad: &'static str = *ctx.src.pick(&["", "a b", "a>", "\u{e9}", "..", "a#b#c", "#", "."]);
            let t = must_parse("<a></a>")?;
            t.transform(|h| h.select(bad, |e| e)).err().map(|e| all(ctx, &e))
        }
    }
    .unwrap_or(Ok(()))
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C31",
        level: "fault_enumeration",
        rule: "A case renders a template (parsed or transformed), an event, a text or the message of an error into writers that fail at each of their calls in turn, run full, or take a few bytes at a time, and templates with the options of format strings. The complete text must arrive, or the failure be reported at once with a beginning of the text written. Non-trivial: something is written in 2+ pieces.",
        parts: vec![
            part("documents", 200_000, 2_000_000, c31_documents),
            part("results", 120_000, 1_000_000, c31_results),
            part("events and texts", 100_000, 1_000_000, c31_parts),
            part("errors", 200_000, 2_000_000, c31_errors),
            part("small documents", forests(5), forests(6), c31_small),
        ],
        assumptions: &["the options of format strings are judged for templates only; on texts and names they may do what they do on strings"],
        findings: vec![],
        exhaustive_parts: &["small documents"],
    }]
}
