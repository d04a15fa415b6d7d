//! The checks, one per property.

pub mod errors;
pub mod memory;
pub mod ops;
pub mod parsing;
pub mod render;
pub mod scale;
pub mod selectors;
pub mod text;
pub mod values;

use crate::engine::*;
use crate::gen;
use crate::interp;
use crate::model::{self, *};
use html5_fuser::Template;

pub fn all() -> Vec<Check> {
    let mut out = Vec::new();
    out.extend(parsing::checks());
    out.extend(text::checks());
    out.extend(selectors::checks());
    out.extend(ops::checks());
    out.extend(errors::checks());
    out.extend(values::checks());
    out.extend(render::checks());
    out.extend(scale::checks());
    out.extend(memory::checks());
    out.sort_by_key(|c| c.id);
    out
}

pub fn short(s: &str) -> String {
    if s.len() <= 600 {
        return s.to_string();
    }
    let mut a = 400;
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = s.len() - 150;
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{}...[{} bytes]...{}", &s[..a], s.len(), &s[b..])
}

/// Two texts must be equal; shows where they differ.
pub fn same_text(what: &str, got: &str, want: &str) -> Res {
    if got == want {
        return Ok(());
    }
    let mut at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    while !got.is_char_boundary(at) || !want.is_char_boundary(at) {
        at -= 1;
    }
    fail(format!(
        "{} differs at byte {}:\n   got {:?}\n  want {:?}",
        what,
        at,
        short(got),
        short(want)
    ))
}

/// Parse text which is a valid template by construction.
pub fn must_parse(s: &str) -> Result<Template, Stop> {
    interp::parse(s).map_err(|e| Stop::Fail(format!("{:?} is valid but was rejected: {:?}", short(s), e)))
}

pub struct Diff {
    pub out: Option<Template>,
    pub calls: Vec<(&'static str, i64)>,
    pub changed: bool,
    pub result: Result<Forest, MErr>,
}

/// Run a program on the real library and on the model, and compare result and builder calls.
pub fn diff(ctx: &mut Ctx, s: &str, f: &Forest, p: &SProg) -> Result<Diff, Stop> {
    ctx.input(s);
    ctx.input(p);
    let t = must_parse(s)?;
    diff_parsed(ctx, &t, s, f, p)
}

pub fn diff_parsed(ctx: &mut Ctx, t: &Template, s: &str, f: &Forest, p: &SProg) -> Result<Diff, Stop> {
    model::take_calls();
    let want = model::run_s(f.clone(), p, &interp::root_env());
    let want_calls = model::take_calls();
    if want == Err(MErr::TooLarge) {
        return Err(Stop::Excluded("the result is too large for the harness"));
    }
    let got = interp::transform(t, p);
    let got_calls = model::take_calls();
    let about = || format!("transforming {:?}\n  by {}", short(s), short(&format!("{:?}", p)));
    let before = model::render(f);
    match (got, want) {
        (Ok(got), Ok(want)) => {
            let text = got.to_string();
            let want_text = model::render(&want);
            same_text(&about(), &text, &want_text)?;
            if got_calls != want_calls && want_calls.len() < model::MAX_CALLS {
                return fail(format!(
                    "{}: builder calls are\n   got {}\n  want {}",
                    about(),
                    short(&format!("{:?}", got_calls)),
                    short(&format!("{:?}", want_calls))
                ));
            }
            let changed = text != before;
            ctx.note(|| format!("{} -> {}", about(), short(&text)));
            Ok(Diff { out: Some(got), calls: got_calls, changed, result: Ok(want) })
        }
        (Err(e), Err(m)) => {
            let kind = interp::stream_err(&e);
            if kind != interp::MErr2::M(m.clone()) {
                return fail(format!("{}: fails with {:?}, expected {:?}", about(), e, m));
            }
            ctx.note(|| format!("{} fails with {:?}", about(), m));
            Ok(Diff { out: None, calls: want_calls, changed: false, result: Err(m) })
        }
        (Ok(got), Err(m)) => fail(format!(
            "{}: gives {:?}, expected the error {:?}",
            about(),
            short(&got.to_string()),
            m
        )),
        (Err(e), Ok(want)) => fail(format!(
            "{}: fails with {:?}, expected {:?}",
            about(),
            e,
            short(&model::render(&want))
        )),
    }
}

/// Number of elements of the document (also used as a measure of size classes).
pub fn shape(ctx: &mut Ctx, f: &Forest) {
    let n = model::count_elems(f);
    let d = model::depth(f);
    ctx.classify_if(n == 0, "document without elements");
    ctx.classify_if(n >= 3, "document with 3+ elements");
    ctx.classify_if(n >= 50, "document with 50+ elements");
    ctx.classify_if(d >= 3, "nesting of 3+");
    ctx.classify_if(d >= 20, "nesting of 20+");
}

pub fn doc(ctx: &mut Ctx, cfg: &gen::DocCfg) -> (String, Forest) {
    let (s, f) = gen::doc(&mut ctx.src, cfg);
    shape(ctx, &f);
    (s, f)
}

pub fn part(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Part {
    Part { name, quick, thorough, run }
}
