//! C01 acceptance, C02 rendering, C03 round trip, C05 locations, C06 limits, C07 files.

use super::*;
use crate::gen::DocCfg;
use crate::refparse::{self, Ev, PErr};
use html5_fuser::template::{FileError, InputError};
use html5_fuser::{ParseOptions, Template};
use std::fs;
use std::io::Write;
use std::path::PathBuf;

// ---------------------------------------------------------------- input texts

const SOUP: &[&str] = &[
    "<", ">", "/", "a", " ", "=", "\"", "!", "<!--", "-->", "<!", "doctype", "html", "</", "/>", "<a>",
    "</a>", "<a ", "<br>", "<script>", "</script>", "</script", "b", "A", "-", "--", "\n", "'", "&", "x=\"y\"",
    "\u{fc}", "\u{65e5}", "<b ", "</b>", "<br", "<img ", "title", "</title>", "<title>", "\t", ",", ";", "=\"",
    "class", "id", "<a/>", "< ", "< /", "\r\n", "<style ", "</style >", "<textarea>", "</textarea>",
    "DOCTYPE HTML", "svg", "\u{1f600}", "</ a >", "<!doctype html>", "\"\"", "==", "<<", "//", "</A>", "<B>",
    "<SCRIPT>", "</Script>", "script", "<x:y ", "a.b", "@", "</br>", "<br/>", "</>", "<>", ".", "#", "\r", "0",
    "<link rel=\"x\">", "<!doctype  foo>", "<!DOCTYPE", "<meta/ >", "selected", "data-x=\"&amp;\"",
];

pub(super) const DEFECTS: &[&str] = &[
    "</zz>", "<zz>", "<a b=c>", "<a b='c'>", "<a \u{fc}=\"x\">", "<a b=\"", "<!-- ", "<!doctype foo>", "<!doctype",
    "<!doctype html5>", "<a", "</a", "</>", "<>", "</ \u{e9}>", "<\u{e9}>", "<a b,c>", "<a b;c=\"\">", "</a,b>",
    "<a,b>", "<a b = c>", "<a b\n=\n>", "</a b>", "<a / b>", "<a =\"x\">", "<a \"x\">", "</br>", "<", "</", "<br",
    "<script>", "</script>", "<style", "<a b=>", "<a b=\"x\"\"y\">", "<a&b>", "<a b&c>", "<x/ y>", "</x/>", "< >",
    "< / >", "<a b=\"x\" \u{65e5}>", "<!doctype>", "<!doctype \u{fc}>", "<a b", "<a b=", "<a b=\"x\"", "<a /",
    "</a ", "</ ", "<br /", "<img src", "<!-", "<!--->", "<a><b></a></b>", "</A></A></A>", "'", "\"", ">", "<'", "<a '",
    "<a b='", "<a b'c>", "</'>", "<title></titlex>", "<!doctype html", "<!--x--", "<a\u{b}>", "<a \u{b}>", "<a x\u{b}y>",
];

/// Texts with a place for any content, long or strange, which ends up in errors or is skipped over.
const OPEN_ENDED: &[&str] = &[
    "<!doctype {}>", "<{}", "<{}>", "</{}>", "<a {}=x>", "<a {}", "<a {}=\"x\">", "<a b={}>", "<a b=\"{}", "<!--{}",
    "<!{}>", "<{}/>", "</a {}>", "<a b=\"x\"{}>", "<script>{}", "<a b{}c>", "<br {}>", "<a {} />", "<!doctype html{}>",
    "<{} b>", "<!--{}-->", "<title {}>", "<a b=\"{}\">", "<!doctype{}html>", "<a{}>", "<a /{}>", "<a b{}=\"\">",
];
const FILL: &[&str] = &[
    "a", "b", "-", "html", "x", "xyz", "\u{fc}", "\u{65e5}", "\u{1f600}", "e\u{301}", "\u{0}", "\u{7f}", " ", "\n",
    "\u{a0}", "\u{2028}", "\u{3000}", "\u{85}", "\u{feff}", "\u{fffd}", "1", "_", ":", ".", "\t", "A", "!", "'", "&",
    "\u{b}", "\u{c}", "/", "=", "{}", "%s", "\\",
];
fn filler(src: &mut Src) -> String {
    let n = src.size(24, 600);
    let mut s = String::new();
    match src.below(3) {
        0 => {
            let bit = *src.pick(FILL);
            for _ in 0..n {
                s.push_str(bit);
            }
        }
        1 => {
            // names, with something else in at most a few places
            for _ in 0..n {
                let i = if src.chance(1, 12) { src.below(FILL.len()) } else { src.below(10) };
                s.push_str(FILL[i]);
            }
        }
        _ => {
            for _ in 0..n {
                s.push_str(*src.pick(FILL));
            }
        }
    }
    s
}
/// Something that is (mostly) an error wherever it stands.
pub(super) fn defect(src: &mut Src) -> String {
    if src.chance(3, 4) {
        (*src.pick(DEFECTS)).to_string()
    } else {
        let t = *src.pick(OPEN_ENDED);
        t.replacen("{}", &filler(src), 1)
    }
}

pub fn soup(src: &mut Src) -> String {
    let mut s = String::new();
    let n = src.size(14, 200);
    for _ in 0..n {
        s.push_str(src.pick(SOUP));
    }
    s
}

fn boundary(s: &str, mut at: usize) -> usize {
    while !s.is_char_boundary(at) {
        at -= 1;
    }
    at
}

/// A few edits of a text: most results are invalid, but only just.
pub fn mutate(src: &mut Src, mut s: String) -> String {
    let n = src.range(1, 3);
    for _ in 0..n {
        let len = s.len();
        let at = boundary(&s, src.below(len + 1));
        match src.below(9) {
            0 => s.insert_str(at, &defect(src)),
            1 => s.insert_str(at, *src.pick(SOUP)),
            2 => {
                // delete one character
                if let Some(c) = s[at..].chars().next() {
                    s.replace_range(at..at + c.len_utf8(), "");
                }
            }
            3 => s.truncate(at),
            4 => {
                // delete a range
                let end = boundary(&s, (at + src.range(1, 12)).min(s.len()));
                if end > at {
                    s.replace_range(at..end, "");
                }
            }
            5 => {
                // duplicate a range
                let end = boundary(&s, (at + src.range(1, 20)).min(s.len()));
                if end > at {
                    let t = s[at..end].to_string();
                    s.insert_str(at, &t);
                }
            }
            6 => {
                // another character
                if let Some(c) = s[at..].chars().next() {
                    s.replace_range(at..at + c.len_utf8(), *src.pick(SOUP));
                }
            }
            7 => {
                // next structural character changed or dropped
                if let Some(i) = s[at..].find(|c| "<>/=\"!-".contains(c)) {
                    let i = at + i;
                    let with = *src.pick(&["", "<", ">", "/", "=", "\"", "'", " ", "&", "-"]);
                    s.replace_range(i..i + 1, with);
                }
            }
            _ => {
                // change the case of what follows
                let end = boundary(&s, (at + 4).min(s.len()));
                if end > at {
                    let t: String = s[at..end]
                        .chars()
                        .map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                        .collect();
                    s.replace_range(at..end, &t);
                }
            }
        }
    }
    s
}

/// A defect planted between two nodes of an otherwise valid, possibly large document.
pub(super) fn planted(src: &mut Src, cfg: &DocCfg) -> String {
    let (mut s, _) = gen::doc(src, cfg);
    let spots: Vec<usize> = s.char_indices().filter(|(_, c)| *c == '<').map(|(i, _)| i).collect();
    let at = if spots.is_empty() { s.len() } else { spots[src.below(spots.len())] };
    s.insert_str(at, &defect(src));
    s
}

const ALPHABET: &[&str] = &[
    "<", ">", "/", "a", "b", " ", "=", "\"", "<!--", "-->", "<!", "doctype", "html", "br", "script", "\u{e9}", "!",
    "A",
];

/// The index-th sequence over the alphabet, by length.
fn nth_sequence(mut index: u64) -> String {
    let n = ALPHABET.len() as u64;
    let mut len = 1;
    let mut count = n;
    while index >= count {
        index -= count;
        count *= n;
        len += 1;
    }
    let mut out = String::new();
    for _ in 0..len {
        out.push_str(ALPHABET[(index % n) as usize]);
        index /= n;
    }
    out
}

const fn sequences(max_len: u32) -> u64 {
    let n = 18u64;
    let mut total = 0;
    let mut k = 1;
    let mut i = 0;
    while i < max_len {
        k *= n;
        total += k;
        i += 1;
    }
    total
}

// ---------------------------------------------------------------- C01

fn compare_parse(ctx: &mut Ctx, s: &str, with_locations: bool) -> Result<Option<Vec<Ev>>, Stop> {
    ctx.input(s);
    let want = refparse::parse(s, None);
    let got = Template::from_str(s, ParseOptions::default());
    match (got, want) {
        (Ok(t), Ok(evs)) => {
            same_text(&format!("the template parsed from {:?}", short(s)), &t.to_string(), &refparse::render(&evs))?;
            ctx.classify("accepted");
            Ok(Some(evs))
        }
        (Err(InputError::Parse { error }), Err(want)) => {
            let got = refparse::perr(&error);
            let a = (got.kind, &got.names, &got.ident, &got.limit);
            let b = (want.kind, &want.names, &want.ident, &want.limit);
            ensure!(a == b, "parsing {:?} fails with {:?}, expected {:?}", short(s), got, want);
            if with_locations {
                ensure!(
                    got.locs == want.locs,
                    "parsing {:?} fails with {:?}, expected the locations {:?}",
                    short(s),
                    got,
                    want.locs
                );
            }
            ctx.classify(want.kind);
            ctx.note(|| format!("{:?} -> {:?}", short(s), want));
            Ok(None)
        }
        (Err(e), Err(want)) => fail(format!("parsing {:?} fails with {:?}, expected {:?}", short(s), e, want)),
        (Ok(t), Err(want)) =>
            fail(format!("{:?} was accepted as {:?}, expected {:?}", short(s), short(&t.to_string()), want)),
        (Err(e), Ok(_)) => fail(format!("{:?} is valid, but was rejected with {:?}", short(s), e)),
    }
}

fn c01_valid(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg::default());
    let evs = match compare_parse(ctx, &s, false)? {
        Some(evs) => evs,
        None => return Err(Stop::Harness(format!("generated document is not valid: {:?}", s))),
    };
    if evs != model::events(&f) {
        return Err(Stop::Harness(format!("reference parser and generator disagree on {:?}", s)));
    }
    ctx.note(|| format!("accepted {:?}", short(&s)));
    ctx.nontrivial(evs.len() >= 3);
    Ok(())
}

fn c01_mutated(ctx: &mut Ctx) -> Res {
    let (s, _) = gen::doc(&mut ctx.src, &DocCfg { cap: 120, ..DocCfg::default() });
    let s = mutate(&mut ctx.src, s);
    let r = compare_parse(ctx, &s, false)?;
    ctx.nontrivial(r.map(|e| e.len() > 1).unwrap_or(true));
    Ok(())
}

fn c01_planted(ctx: &mut Ctx) -> Res {
    let s = planted(&mut ctx.src, &DocCfg::default());
    compare_parse(ctx, &s, false)?;
    ctx.nontrivial(true);
    Ok(())
}

fn c01_soup(ctx: &mut Ctx) -> Res {
    let s = soup(&mut ctx.src);
    let r = compare_parse(ctx, &s, false)?;
    ctx.nontrivial(r.map(|e| e.len() > 1).unwrap_or(true));
    Ok(())
}

/// Texts with long runs of the same pieces at every place of the grammar.
fn runs(src: &mut Src) -> String {
    let run = |src: &mut Src, unit: &str| -> String {
        let edge = if src.chance(1, 30) { 4_096 } else { *src.pick(&[32, 64, 128, 256, 256, 512, 1024, 1024]) };
        unit.repeat(edge - 2 + src.below(5))
    };
    let mut s = String::new();
    for _ in 0..src.range(1, 3) {
        let inside = match src.below(12) {
            0 | 1 => {
                let tag = *src.pick(refparse::RAW);
                let unit = *src.pick(&["<", "< ", "</", "</x>", "<!--", "1<2;", "</ ", "<<x", "\n", "--", "\u{65e5}<"]);
                let end = *src.pick(&["", "</", "</x>", "<!-- "]);
                format!("<{}>{}{}</{}{}>", tag, run(src, unit), end, tag, src.pick(&["", " ", "\n"]))
            }
            2 => {
                let unit = *src.pick(&["-", "--", "->", "- ", ">", "<a>", "-- >", "\u{e9}", "<!-"]);
                format!("<!--{} -->", run(src, unit))
            }
            3 => {
                let unit = *src.pick(&[" k", " k=\"\"", " k=\"v\"", "\n\tk = \"v\" l"]);
                format!("<b{}></b>", run(src, unit))
            }
            4 => {
                let mut s = String::from("<br");
                for i in 0..*src.pick(&[30, 70, 130, 260, 600]) {
                    s.push_str(&format!(" k{}=\"{}\"", i, i % 7));
                }
                s + ">"
            }
            5 => {
                let unit = *src.pick(&["x", "'", ">", "&amp;", " ", "\n", "<", "\u{1f600}", "="]);
                format!("<b k=\"{}\" l></b>", run(src, unit))
            }
            6 => {
                let gap = *src.pick(&[" ", "\n", "\t ", "\u{3000}"]);
                let gaps: Vec<String> = (0..8).map(|_| if src.chance(1, 2) { run(src, gap) } else { String::new() }).collect();
                format!(
                    "<{}b{} k{}={}\"v\"{}></{}b{}>{}",
                    gaps[0], gaps[1], gaps[2], gaps[3], gaps[4], gaps[5], gaps[6], gaps[7]
                )
            }
            7 => {
                let name = { let unit = *src.pick(&["n", "Nm", "x-", "a1"]); run(src, unit) };
                let other = if src.chance(1, 6) { name[1..].to_string() + "z" } else { name.to_uppercase() };
                format!("<{}></{}>", name, other)
            }
            8 => {
                let unit = *src.pick(&["<br>", "<b/>", "<i></i>", "<!---->", "t<br>", "<!doctype html>", "<script></script>"]);
                run(src, unit)
            }
            9 => {
                let d = *src.pick(&[30, 66, 130, 260, 520]);
                format!("{}t{}", "<u>".repeat(d), "</u>".repeat(d))
            }
            10 => format!("<!doctype{}html{}>", run(src, " "), run(src, " ")),
            _ => {
                let unit = *src.pick(&["x", ">", "\n", "&", "\"", "\u{1f600}", "-->", " "]);
                run(src, unit)
            }
        };
        s.push_str(&inside);
        s.push_str(src.pick(&["", "t", "<b></b>", "<br>"]));
    }
    match src.below(12) {
        0 => planted(src, &DocCfg { cap: 20, ..DocCfg::default() }) + &s,
        1 => s + &planted(src, &DocCfg { cap: 20, ..DocCfg::default() }),
        2 => {
            let mut at = s.len() - src.below(s.len().min(40) + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.truncate(at);
            s
        }
        _ => s,
    }
}
fn c01_runs(ctx: &mut Ctx) -> Res {
    let s = runs(&mut ctx.src);
    let r = compare_parse(ctx, &s, false)?;
    ctx.nontrivial(r.map(|e| e.len() > 1).unwrap_or(true));
    Ok(())
}

fn c01_exhaustive(ctx: &mut Ctx) -> Res {
    let s = nth_sequence(ctx.index);
    let r = compare_parse(ctx, &s, false)?;
    ctx.nontrivial(r.map(|e| e.len() > 1).unwrap_or(true));
    Ok(())
}

/// Raw text elements with contents made of pieces of closing tags.
fn c01_raw(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let tag = *src.pick(refparse::RAW);
    let mut s = format!("<{}>", tag);
    let n = src.size(8, 120);
    for _ in 0..n {
        match src.below(14) {
            0 => s.push_str(tag),
            1 => s.push_str("</"),
            2 => s.push_str(&tag.to_uppercase()),
            3 => s.push('<'),
            4 => s.push('/'),
            5 => s.push('>'),
            6 => s.push(' '),
            7 => s.push_str(&tag[..tag.len() - 1]),
            8 => s.push_str(refparse::RAW[src.below(4)]),
            9 => s.push_str("<!--"),
            10 => s.push_str("-->"),
            11 => s.push('\u{fc}'),
            12 => s.push('x'),
            _ => s.push_str("\n"),
        }
    }
    if !src.chance(1, 3) {
        s.push_str(&format!("</{}>", tag));
        if src.chance(1, 2) {
            s.push_str(*src.pick(&["<b>x</b>", "x", "<!--x-->", "</b>", "<br>", "<style></style>"]));
        }
    }
    compare_parse(ctx, &s, false)?;
    ctx.nontrivial(true);
    Ok(())
}

// ---------------------------------------------------------------- C02

fn faithful(ctx: &mut Ctx, cfg: &DocCfg) -> Res {
    let (s, f) = doc(ctx, cfg);
    ctx.input(&s);
    let t = must_parse(&s)?;
    let want = model::render(&f);
    same_text(&format!("rendering of {:?}", short(&s)), &t.to_string(), &want)?;
    // the same document written differently
    let other = gen::source(&mut ctx.src, &f);
    let t2 = must_parse(&other)?;
    same_text(&format!("rendering of {:?}", short(&other)), &t2.to_string(), &want)?;
    ctx.classify_if(other != s, "two formattings of one document");
    // an untouched template renders the same as often as wanted, whole or inside others
    let wrapped = t
        .transform(|api| api.prepend("x").append("y"))
        .map_err(|e| Stop::Fail(format!("prepend/append failed: {:?}", e)))?;
    same_text("rendering inside of a larger template", &wrapped.to_string(), &format!("x{}y", want))?;
    same_text("second rendering", &format!("{}", t), &want)?;
    ctx.note(|| format!("{:?} -> {:?}", short(&s), short(&want)));
    ctx.nontrivial(f.len() > 1 || model::count_elems(&f) > 1);
    Ok(())
}

fn c02_documents(ctx: &mut Ctx) -> Res { faithful(ctx, &DocCfg::default()) }
fn c02_attributes(ctx: &mut Ctx) -> Res {
    faithful(ctx, &DocCfg { attrs: 4, kids: 2, depth: 2, mix: [1, 6, 6, 6, 1, 0, 0], spike: 6, ..DocCfg::default() })
}
fn c02_texts(ctx: &mut Ctx) -> Res {
    faithful(ctx, &DocCfg { kids: 4, depth: 2, mix: [10, 4, 1, 1, 8, 8, 2], cap: 20_000, ..DocCfg::default() })
}
fn c02_soup(ctx: &mut Ctx) -> Res {
    // whatever is accepted must be rendered as what it says
    let s = if ctx.src.chance(1, 2) {
        soup(&mut ctx.src)
    } else {
        let (s, _) = gen::doc(&mut ctx.src, &DocCfg::tiny());
        mutate(&mut ctx.src, s)
    };
    rendered(ctx, &s)
}
fn c02_runs(ctx: &mut Ctx) -> Res {
    let s = runs(&mut ctx.src);
    rendered(ctx, &s)
}
fn rendered(ctx: &mut Ctx, s: &str) -> Res {
    ctx.input(s);
    let (t, evs) = match (interp::parse(s), refparse::parse(s, None)) {
        (Ok(t), Ok(e)) => (t, e),
        _ => {
            ctx.classify("rejected");
            return Ok(());
        }
    };
    same_text(&format!("rendering of {:?}", short(s)), &t.to_string(), &refparse::render(&evs))?;
    ctx.note(|| format!("{:?} -> {:?}", short(s), short(&t.to_string())));
    ctx.nontrivial(evs.len() > 1);
    Ok(())
}

// ---------------------------------------------------------------- C03

fn fixpoint(ctx: &mut Ctx, s: &str, evs: &[Ev], p: &SProg) -> Res {
    ctx.input(s);
    ctx.input(p);
    if refparse::has_bang_tag(evs) {
        return Err(Stop::Excluded("F2: element name '!doctype' or '!--...'"));
    }
    let t1 = interp::parse(s).map_err(|e| Stop::Fail(format!("{:?} was rejected: {:?}", short(s), e)))?;
    let r1 = t1.to_string();
    let t2 = match interp::parse(&r1) {
        Ok(t) => t,
        Err(e) => return fail(format!("{:?} renders as {:?}, which is rejected: {:?}", short(s), short(&r1), e)),
    };
    same_text(&format!("second rendering of {:?}", short(s)), &t2.to_string(), &r1)?;
    ensure!(t1 == t2 && t2 == t1, "{:?} and its re-parsed rendering {:?} are not equal", short(s), short(&r1));
    let a = interp::transform(&t1, p);
    let b = interp::transform(&t2, p);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            same_text(
                &format!("{:?} re-parsed and transformed by {}", short(s), short(&format!("{:?}", p))),
                &b.to_string(),
                &a.to_string(),
            )?;
            ensure!(a == b, "{:?} and its re-parsed rendering are not equal after {:?}", short(s), p);
        }
        (Err(a), Err(b)) => ensure!(
            interp::stream_err(&a) == interp::stream_err(&b),
            "{:?} re-parsed fails differently: {:?} / {:?}",
            short(s),
            a,
            b
        ),
        (a, b) => return fail(format!("{:?} re-parsed behaves differently under {:?}: {:?} / {:?}", short(s), p, a, b)),
    }
    ctx.note(|| format!("{:?} -> {:?}", short(s), short(&r1)));
    ctx.nontrivial(evs.len() > 1);
    Ok(())
}

fn c03_documents(ctx: &mut Ctx) -> Res {
    let (s, f) = doc(ctx, &DocCfg::default());
    let p = gen::sprog(&mut ctx.src, &gen::ProgCfg { depth: 2, s_ops: 1, ..gen::ProgCfg::default() });
    let evs = model::events(&f);
    fixpoint(ctx, &s, &evs, &p)
}
fn c03_raw(ctx: &mut Ctx) -> Res {
    let cfg = DocCfg { mix: [4, 4, 2, 3, 14, 6, 2], kids: 4, depth: 2, ..DocCfg::default() };
    let (s, f) = doc(ctx, &cfg);
    let evs = model::events(&f);
    fixpoint(ctx, &s, &evs, &vec![])
}
fn c03_accepted(ctx: &mut Ctx) -> Res {
    let s = match ctx.src.below(3) {
        0 => soup(&mut ctx.src),
        _ => {
            let (s, _) = gen::doc(&mut ctx.src, &DocCfg::tiny());
            mutate(&mut ctx.src, s)
        }
    };
    fixpoint_of(ctx, &s)
}
fn c03_runs(ctx: &mut Ctx) -> Res {
    let s = runs(&mut ctx.src);
    fixpoint_of(ctx, &s)
}
fn fixpoint_of(ctx: &mut Ctx, s: &str) -> Res {
    match refparse::parse(s, None) {
        Ok(evs) => {
            ctx.classify("accepted text");
            fixpoint(ctx, s, &evs, &vec![])
        }
        Err(_) => {
            ctx.classify("rejected text");
            Ok(())
        }
    }
}

/// F2: an element name starting with `!` renders as comment or doctype.
pub fn f2_still_fails() -> bool {
    match interp::parse("< !doctype html></!doctype>") {
        Ok(t) => match interp::parse(&t.to_string()) {
            Ok(t2) => t2 != t,
            Err(_) => true,
        },
        Err(_) => false,
    }
}

// ---------------------------------------------------------------- C05

fn located(ctx: &mut Ctx, s: &str) -> Res {
    ctx.input(s);
    let got = match Template::from_str(s, ParseOptions::default()) {
        Ok(_) => {
            ctx.classify("accepted");
            return Ok(());
        }
        Err(InputError::Parse { error }) => refparse::perr(&error),
        Err(e) => return fail(format!("unexpected error {:?} for {:?}", e, short(s))),
    };
    // the coordinates of every location describe the same place of the input
    for l in &got.locs {
        ensure!(
            l.offset <= s.len() && s.is_char_boundary(l.offset),
            "offset {} of {:?} is no character boundary of {:?}",
            l.offset,
            got,
            short(s)
        );
        let want = refparse::loc_of(s, l.offset);
        ensure!(*l == want, "location {:?} in the error {:?} for {:?} should be {:?}", l, got, short(s), want);
    }
    match refparse::parse(s, None) {
        Err(want) if want.kind == got.kind => {
            ensure!(
                got.locs == want.locs,
                "error {:?} for {:?} should have the locations {:?}",
                got,
                short(s),
                want.locs
            );
            ctx.note(|| format!("{:?} -> {:?}", short(s), got));
        }
        other => return fail(format!("{:?} fails with {:?}, expected {:?}", short(s), got, other)),
    }
    let first = got.locs.iter().map(|l| l.offset).max().unwrap_or(0);
    ctx.classify(got.kind);
    ctx.classify_if(s[..first].contains('\n'), "error after a line break");
    ctx.classify_if(!s[..first].is_ascii(), "error after a multi-byte character");
    ctx.classify_if(got.locs.len() > 1, "error with several locations");
    ctx.classify_if(got.locs.len() > 4, "error with 5+ locations");
    ctx.nontrivial(first > 0);
    Ok(())
}

fn c05_mutated(ctx: &mut Ctx) -> Res {
    let (s, _) = gen::doc(&mut ctx.src, &DocCfg { cap: 120, ..DocCfg::default() });
    let s = mutate(&mut ctx.src, s);
    located(ctx, &s)
}
fn c05_planted(ctx: &mut Ctx) -> Res {
    let mut s = planted(&mut ctx.src, &DocCfg::default());
    if ctx.src.chance(1, 4) {
        let n = ctx.src.size(40, 5000);
        s.insert_str(0, &"\u{65e5}\n \u{1f600}x".repeat(n / 12 + 1));
    }
    located(ctx, &s)
}
fn c05_unclosed(ctx: &mut Ctx) -> Res {
    // many open elements at the end, or closed in the wrong order
    let src = &mut ctx.src;
    let mut s = String::new();
    let n = src.size(8, 300);
    let mut open: Vec<&str> = Vec::new();
    for _ in 0..n {
        if src.chance(1, 4) {
            s.push_str(*src.pick(&["\n", "\r\n", "\u{fc}", "x", "<!--\n-->", "<br>", "<b/>", " ", "\u{1f600}\n", "\r"]));
        }
        if !open.is_empty() && src.chance(1, 3) {
            let tag = open.pop().unwrap();
            s.push_str(&format!("</{}>", tag));
        } else {
            let tag = *src.pick(&["a", "b", "A", "div", "x-y"]);
            s.push_str(&format!("<{}{}>", tag, src.pick(&["", " ", " k=\"\n\"", "\n", " k=\"\u{65e5}\" l"])));
            open.push(tag);
        }
    }
    match src.below(4) {
        0 => {
            if let Some(tag) = open.first() {
                s.push_str(&format!("</{}x>", tag))
            }
        }
        1 => {
            while let Some(tag) = open.pop() {
                s.push_str(&format!("</{}>", tag))
            }
            s.push_str("\n</a>")
        }
        _ => {}
    }
    located(ctx, &s)
}
fn c05_soup(ctx: &mut Ctx) -> Res {
    let s = soup(&mut ctx.src);
    located(ctx, &s)
}
/// An error far into the input: past many lines, columns, bytes or elements.
fn c05_far(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let mut s = String::new();
    let pieces = 1 + src.below(3);
    for _ in 0..pieces {
        let edge = if src.chance(1, 12) { 65_536 } else { *src.pick(&[256, 256, 128, 1024, 4096]) };
        let n = (edge - 3 + src.below(6)) * if src.chance(1, 4) { 2 } else { 1 };
        let unit = *src.pick(&["\n", "\n", "x", "\u{65e5}", "\r\n", "\u{1f600}", " "]);
        let run = unit.repeat(n);
        match src.below(6) {
            0 => s.push_str(&format!("<!--{}-->", run)),
            1 => s.push_str(&format!("<b k=\"{}\">", run)),
            2 => s.push_str(&format!("<script>{}</script>", run)),
            3 => s.push_str(&"<i k></i>".repeat(n.min(1500))),
            _ => s.push_str(&run),
        }
    }
    s.push_str(&planted(src, &DocCfg { cap: 20, ..DocCfg::default() }));
    located(ctx, &s)
}
fn c05_exhaustive(ctx: &mut Ctx) -> Res {
    let s = format!("\u{fc}\n{}", nth_sequence(ctx.index));
    located(ctx, &s)
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
struct Limits {
    depth: Option<usize>,
    len: Option<usize>,
}

/// Make options for the limits by one of the supported ways.
fn options(src: &mut Src, want: Limits) -> ParseOptions {
    match src.below(3) {
        0 => ParseOptions { max_stack_depth: want.depth, max_input_len: want.len },
        1 => {
            let mut o = ParseOptions::default();
            if let Some(d) = want.depth {
                o = o.max_stack_depth(d);
            }
            if let Some(l) = want.len {
                o = o.max_input_len(l);
            }
            o
        }
        _ => {
            // a random history of calls, fixed up at the end
            let mut o = if src.chance(1, 2) {
                ParseOptions::default()
            } else {
                ParseOptions { max_stack_depth: Some(src.below(5)), max_input_len: Some(src.below(50)) }
            };
            let n = src.below(6);
            let mut fixed = [false; 2];
            for _ in 0..n {
                o = match src.below(4) {
                    0 => {
                        fixed[0] = false;
                        o.max_stack_depth(src.below(6))
                    }
                    1 => {
                        fixed[0] = want.depth.is_none();
                        o.no_max_stack_depth()
                    }
                    2 => {
                        fixed[1] = false;
                        o.max_input_len(src.below(60))
                    }
                    _ => {
                        fixed[1] = want.len.is_none();
                        o.no_max_input_len()
                    }
                };
            }
            let depth_first = src.chance(1, 2);
            for step in 0..2 {
                if (step == 0) == depth_first {
                    o = match want.depth {
                        Some(d) => o.max_stack_depth(d),
                        None => o.no_max_stack_depth(),
                    };
                } else {
                    o = match want.len {
                        Some(l) => o.max_input_len(l),
                        None => o.no_max_input_len(),
                    };
                }
            }
            o
        }
    }
}

fn check_limits(ctx: &mut Ctx, s: &str, want: Limits) -> Res {
    ctx.input(&want);
    let o = options(&mut ctx.src, want);
    ensure!(
        o.max_stack_depth == want.depth && o.max_input_len == want.len,
        "options are {:?}, expected {:?}",
        o,
        want
    );
    let got = Template::from_str(s, o);
    judge_limits(ctx, s, want, got)
}

/// Whether the outcome of parsing the text is what the limits ask for.
fn judge_limits(ctx: &mut Ctx, s: &str, want: Limits, got: Result<Template, InputError>) -> Res {
    let too_long = want.len.map(|l| s.len() > l).unwrap_or(false);
    match got {
        Err(InputError::LengthLimitExceeded { limit }) => {
            ensure!(
                too_long && Some(limit) == want.len,
                "{:?} of {} bytes with {:?} exceeds the length limit {}",
                short(s),
                s.len(),
                want,
                limit
            );
            ctx.classify("length limit exceeded");
        }
        other => {
            ensure!(!too_long, "{:?} of {} bytes with {:?} gives {:?}", short(s), s.len(), want, other);
            match (other, refparse::parse(s, want.depth)) {
                (Ok(t), Ok(evs)) => {
                    same_text(&format!("{:?} with {:?}", short(s), want), &t.to_string(), &refparse::render(&evs))?;
                    ctx.classify("within the limits");
                }
                (Err(InputError::Parse { error }), Err(b)) => {
                    let a = refparse::perr(&error);
                    ensure!(a == b, "{:?} with {:?} gives {:?}, expected {:?}", short(s), want, a, b);
                    ctx.classify(b.kind);
                }
                (a, b) => return fail(format!("{:?} with {:?} gives {:?}, expected {:?}", short(s), want, a, b)),
            }
        }
    }
    ctx.note(|| format!("{:?} with {:?}", short(s), want));
    ctx.nontrivial(want.depth.is_some() || want.len.is_some());
    Ok(())
}

/// Depths and limits around the bounds of small counters.
fn c06_far(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let edge = if src.chance(1, 40) { 65_536 } else { *src.pick(&[64, 128, 256, 256, 512, 1024]) };
    let d = edge - 3 + src.below(8);
    let tag = *src.pick(&["a", "B", "div"]);
    let mut s = String::new();
    for _ in 0..src.below(3) {
        s.push_str("<c><br></c>");
    }
    s.push_str(&format!("<{}>", tag).repeat(d));
    s.push_str(src.pick(&["", "t", "<br>", "<b/>", "<i></i>"]));
    s.push_str(&format!("</{}>", tag).repeat(d));
    let f = |src: &mut Src, n: usize| -> Option<usize> {
        Some(match src.below(10) {
            0 => return None,
            1 => n.saturating_sub(256),
            2 => n + 256,
            3 => n % 256,
            4 => n + 65_536,
            5 => usize::MAX,
            6 => src.below(n + 1),
            _ => (n + 2).saturating_sub(src.below(5)),
        })
    };
    let want = Limits { depth: f(src, d), len: if src.chance(1, 2) { None } else { f(src, s.len()) } };
    check_limits(ctx, &s, want)
}
fn c06_sweep(ctx: &mut Ctx) -> Res {
    // every depth limit around the depth of the document
    let (s, f) = doc(ctx, &DocCfg { cap: 60, ..DocCfg::default() });
    let s = if ctx.src.chance(1, 4) { mutate(&mut ctx.src, s) } else { s };
    ctx.input(&s);
    let d = model::depth(&f);
    let lo = d.saturating_sub(6);
    for depth in (0..3.min(lo)).chain(lo..d + 3) {
        check_limits(ctx, &s, Limits { depth: Some(depth), len: None })?;
    }
    for len in [0, s.len().saturating_sub(1), s.len(), s.len() + 1, usize::MAX] {
        check_limits(ctx, &s, Limits { depth: None, len: Some(len) })?;
    }
    check_limits(ctx, &s, Limits { depth: Some(usize::MAX), len: Some(s.len()) })?;
    check_limits(ctx, &s, Limits { depth: None, len: None })
}

fn c06_random(ctx: &mut Ctx) -> Res {
    let s = match ctx.src.below(4) {
        0 => planted(&mut ctx.src, &DocCfg { cap: 100, ..DocCfg::default() }),
        1 => soup(&mut ctx.src),
        2 => {
            let (s, _) = gen::doc(&mut ctx.src, &DocCfg { cap: 9000, ..DocCfg::default() });
            s
        }
        _ => {
            let (s, _) = gen::doc(&mut ctx.src, &DocCfg::small());
            mutate(&mut ctx.src, s)
        }
    };
    ctx.input(&s);
    let depth = match ctx.src.below(3) {
        0 => None,
        _ => Some(ctx.src.size(6, 300)),
    };
    let len = match ctx.src.below(4) {
        0 => None,
        1 => Some(ctx.src.below(s.len() + 3)),
        2 => Some(s.chars().count()),
        _ => Some((s.len() + 1).saturating_sub(ctx.src.below(3))),
    };
    check_limits(ctx, &s, Limits { depth, len })
}

/// Void and self-closed elements in all positions while the limit is nearly reached.
/// The limits hold for files too, wherever reading the file pauses.
fn c06_files(ctx: &mut Ctx) -> Res {
    let s = match ctx.src.below(4) {
        0 => {
            let size = near_buffer(&mut ctx.src);
            let mut s = sized(&mut ctx.src, size);
            let (d, _) = gen::doc(&mut ctx.src, &DocCfg::tiny());
            s.push_str(&d);
            s
        }
        1 => planted(&mut ctx.src, &DocCfg::small()),
        2 => soup(&mut ctx.src),
        _ => gen::doc(&mut ctx.src, &DocCfg { cap: 200, ..DocCfg::default() }).0,
    };
    ctx.input(&s);
    let path = scratch_file("limits.html");
    fs::write(&path, &s).map_err(|e| Stop::Harness(format!("write: {}", e)))?;
    for _ in 0..3 {
        let len = match ctx.src.below(7) {
            6 => Some(usize::MAX - ctx.src.below(2)),
            0 => None,
            1 => Some(ctx.src.below(s.len() + 3)),
            2 => Some(near_buffer(&mut ctx.src)),
            3 => Some(s.find('<').unwrap_or(0)),
            4 => Some(s.rfind('>').map(|p| p + 1).unwrap_or(0)),
            _ => Some((s.len() + 1).saturating_sub(ctx.src.below(3))),
        };
        let depth = if ctx.src.chance(1, 3) { Some(ctx.src.size(6, 300)) } else { None };
        let want = Limits { depth, len };
        ctx.input(&want);
        let o = options(&mut ctx.src, want);
        match Template::from_file(&path, o) {
            Ok(t) => judge_limits(ctx, &s, want, Ok(t))?,
            Err(FileError::Input { error, .. }) => judge_limits(ctx, &s, want, Err(error))?,
            Err(e) => return fail(format!("file with {:?} and {:?} gives {:?}", short(&s), want, e)),
        }
    }
    Ok(())
}

fn c06_shallow(ctx: &mut Ctx) -> Res {
    let src = &mut ctx.src;
    let limit = src.below(4);
    let mut s = String::new();
    let mut open = Vec::new();
    let n = src.size(12, 300);
    for _ in 0..n {
        match src.below(8) {
            0 | 1 => s.push_str(*src.pick(&["<br>", "<BR/>", "<img x>", "<input/>", "<wbr>", "<Meta>", "<link />"])),
            2 => s.push_str(*src.pick(&["<a/>", "<b />", "<script/>", "<title />", "<x y=\"\"/>"])),
            3 => s.push_str(*src.pick(&["<!--<a><a><a>-->", "x", "<!doctype html>", "\n"])),
            4 | 5 => {
                if open.len() < limit + usize::from(src.chance(1, 40)) {
                    let t = *src.pick(&["a", "b", "div", "title", "script"]);
                    s.push_str(&format!("<{}>", t));
                    if t == "title" || t == "script" {
                        s.push_str("<a><a>");
                        s.push_str(&format!("</{}>", t));
                    } else {
                        open.push(t);
                    }
                }
            }
            _ => {
                if let Some(t) = open.pop() {
                    s.push_str(&format!("</{}>", t));
                }
            }
        }
    }
    while let Some(t) = open.pop() {
        s.push_str(&format!("</{}>", t));
    }
    ctx.input(&s);
    check_limits(ctx, &s, Limits { depth: Some(limit), len: None })
}

// ---------------------------------------------------------------- C07

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let dir = std::env::temp_dir().join(format!(
            "fuser-pbt-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        fs::create_dir_all(&dir).expect("scratch directory");
        Scratch(dir)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); }
}

thread_local! {
    static SCRATCH: Scratch = Scratch::new();
}
/// A file of this thread's scratch directory (removed when the thread ends).
pub fn scratch_file(name: &str) -> PathBuf { SCRATCH.with(|s| s.0.join(name)) }

/// One of many ways to name an existing file; every call with the same number names it alike.
fn spelled(path: &std::path::Path, way: usize) -> Result<PathBuf, Stop> {
    use std::os::unix::ffi::OsStringExt;
    let harness = |e: std::io::Error| Stop::Harness(format!("{:?}: {}", path, e));
    let dir = path.parent().expect("directory");
    let name = path.file_name().expect("name");
    let other = |name: &std::ffi::OsStr, hard: bool| -> Result<PathBuf, Stop> {
        let link = dir.join(name);
        let _ = fs::remove_file(&link);
        if hard { fs::hard_link(path, &link) } else { std::os::unix::fs::symlink(path, &link) }.map_err(harness)?;
        Ok(link)
    };
    Ok(match way {
        0 => dir.join(".").join(name),
        1 => {
            let below = dir.join("below");
            let _ = fs::create_dir(&below);
            below.join("..").join(name)
        }
        2 => other("link to it".as_ref(), false)?,
        3 => other(&std::ffi::OsString::from_vec(b"t\xff\xfe.html".to_vec()), true)?,
        4 => {
            // from the current directory up to the root, and down again
            let depth = std::env::current_dir().map_err(harness)?.components().count() - 1;
            let mut p = PathBuf::new();
            for _ in 0..depth {
                p.push("..");
            }
            p.push(path.strip_prefix("/").map_err(|e| Stop::Harness(e.to_string()))?);
            p
        }
        5 => PathBuf::from(path.to_str().expect("utf-8").replace('/', "//")),
        6 => other("\u{65e5} 'quoted\" %20&amp;\n".as_ref(), true)?,
        _ => path.to_path_buf(),
    })
}

pub(super) fn file_path_of(e: &FileError) -> &std::path::Path {
    match e {
        FileError::Open { path, .. }
        | FileError::Read { path, .. }
        | FileError::Input { path, .. }
        | FileError::Decode { path, .. } => path,
    }
}

fn compare_file(ctx: &mut Ctx, bytes: &[u8], o: ParseOptions) -> Res {
    ctx.input(bytes);
    let path = scratch_file("t.html");
    fs::write(&path, bytes).map_err(|e| Stop::Harness(format!("write: {}", e)))?;
    let path = if ctx.src.chance(1, 4) {
        ctx.classify("unusual path");
        let way = ctx.src.below(8);
        spelled(&path, way)?
    } else {
        path
    };
    let got = match (ctx.src.below(5), path.to_str()) {
        (0, _) => Template::from_file(&path, o),
        (1, Some(p)) => Template::from_file(p, o),
        (2, Some(p)) => Template::from_file(p.to_string(), o),
        (3, _) => Template::from_file(path.as_os_str(), o),
        _ => Template::from_file(path.clone(), o),
    };
    if let Err(e) = &got {
        ensure!(
            file_path_of(e).as_os_str() == path.as_os_str(),
            "error {:?} does not name the path {:?}",
            e,
            path
        );
        ensure!(
            e.to_string().contains(&path.display().to_string()),
            "message {:?} does not name the path {:?}",
            e.to_string(),
            path
        );
    }
    let about = || format!("file of {} bytes {:?} with {:?}", bytes.len(), short(&String::from_utf8_lossy(bytes)), o);
    let too_long = o.max_input_len.map(|l| bytes.len() > l).unwrap_or(false);
    let text = std::str::from_utf8(bytes);
    let utf8 = text.is_ok();
    match (&got, utf8, too_long) {
        (Err(FileError::Decode { error, .. }), false, _) => {
            let want = text.unwrap_err();
            ensure!(
                error.valid_up_to() == want.valid_up_to(),
                "{}: decode error is {:?}, expected {:?}",
                about(),
                error,
                want
            );
            ctx.classify("not UTF-8");
        }
        (Err(FileError::Input { error: InputError::LengthLimitExceeded { limit }, .. }), _, true) => {
            ensure!(Some(*limit) == o.max_input_len, "{}: limit reported as {}", about(), limit);
            ctx.classify("too long");
        }
        (got, true, false) => {
            let want = Template::from_str(text.unwrap(), o);
            match (got, want) {
                (Ok(a), Ok(b)) => {
                    same_text(&about(), &a.to_string(), &b.to_string())?;
                    ensure!(*a == b, "{}: differs from the template from text", about());
                    ctx.classify("accepted");
                }
                (Err(FileError::Input { error: a, .. }), Err(b)) => {
                    ensure!(*a == b, "{}: gives {:?}, from text {:?}", about(), a, b);
                    ctx.classify("parse error");
                }
                (a, b) => return fail(format!("{}: gives {:?}, from text {:?}", about(), a, b)),
            }
        }
        (got, _, _) => return fail(format!("{}: gives {:?}", about(), got)),
    }
    ctx.note(|| about());
    ctx.classify_if(bytes.len() > 8192, "more than one read buffer");
    ctx.nontrivial(bytes.len() > 3);
    Ok(())
}

/// Content of an exact size made of a repeated piece, with multi-byte characters anywhere.
fn sized(src: &mut Src, size: usize) -> String {
    const UNITS: &[&str] = &[
        "\u{65e5}", "\u{fc}", "x", "\u{1f600}", "<a>\u{fc}</a>", "<b k=\"\u{1f600}\">x</b>", "x\u{65e5}", "<br>\n",
        "<!--\u{fc}-->", "\r\n", "<script>\u{1f600}</script>", "\u{feff}",
    ];
    let mut s = String::new();
    let lead = src.below(4);
    for _ in 0..lead {
        s.push(*src.pick(&['a', '\u{e9}', '\u{20ac}', '\u{10ffff}']));
    }
    let unit = *src.pick(UNITS);
    while s.len() + unit.len() <= size {
        s.push_str(unit);
    }
    while s.len() < size {
        s.push('.');
    }
    s
}

fn near_buffer(src: &mut Src) -> usize {
    let base = *src.pick(&[0usize, 16, 512, 1024, 4096, 8192, 16384, 24576, 32768, 65536, 131_072]);
    (base + src.below(9)).saturating_sub(4)
}

fn c07_sizes(ctx: &mut Ctx) -> Res {
    let size = near_buffer(&mut ctx.src);
    let mut s = sized(&mut ctx.src, size);
    if ctx.src.chance(1, 3) {
        let (d, _) = gen::doc(&mut ctx.src, &DocCfg::tiny());
        s.push_str(&d);
    }
    if ctx.src.chance(1, 8) {
        s = mutate(&mut ctx.src, s);
    }
    let mut o = ParseOptions::default();
    if ctx.src.chance(1, 3) {
        o = o.max_input_len((s.len() + ctx.src.below(5)).saturating_sub(2));
    }
    if ctx.src.chance(1, 8) {
        o = o.max_stack_depth(ctx.src.below(3));
    }
    compare_file(ctx, s.as_bytes(), o)
}

fn c07_documents(ctx: &mut Ctx) -> Res {
    let (s, _) = gen::doc(&mut ctx.src, &DocCfg { cap: 700, spike: 10, ..DocCfg::default() });
    let s = if ctx.src.chance(1, 3) { mutate(&mut ctx.src, s) } else { s };
    let mut o = ParseOptions::default();
    if ctx.src.chance(1, 4) {
        o = o.max_input_len(if ctx.src.chance(1, 10) { usize::MAX } else { ctx.src.below(s.len() + 2) });
    }
    if ctx.src.chance(1, 4) {
        o = o.max_stack_depth(ctx.src.below(5));
    }
    compare_file(ctx, s.as_bytes(), o)
}

fn c07_bytes(ctx: &mut Ctx) -> Res {
    // invalid UTF-8 at any place, also only across or at the end of buffers
    let size = if ctx.src.chance(1, 2) { near_buffer(&mut ctx.src) } else { ctx.src.below(40) };
    let s = sized(&mut ctx.src, size);
    let mut bytes = s.into_bytes();
    const BAD: &[&[u8]] = &[
        b"\xff", b"\xc3", b"\xe6\x97", b"\xf0\x9f\x98", b"\x80", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80",
        b"\xf4\x90\x80\x80", b"\xe6", b"\xfe\xff",
    ];
    let n = ctx.src.below(3);
    for _ in 0..n {
        let bad = *ctx.src.pick(BAD);
        let at = match ctx.src.below(4) {
            0 => bytes.len(),
            1 => 0,
            2 => bytes.len().min(8192 * ctx.src.range(1, 2)).saturating_sub(ctx.src.below(5)),
            _ => ctx.src.below(bytes.len() + 1),
        };
        bytes.splice(at..at, bad.iter().cloned());
    }
    if ctx.src.chance(1, 8) && !bytes.is_empty() {
        let at = ctx.src.below(bytes.len());
        bytes.truncate(at);
    }
    let mut o = ParseOptions::default();
    if ctx.src.chance(1, 5) {
        o = o.max_input_len((bytes.len() + ctx.src.below(5)).saturating_sub(2));
    }
    compare_file(ctx, &bytes, o)
}

fn c07_faults(ctx: &mut Ctx) -> Res {
    let which = ctx.src.below(4);
    ctx.input(&(which, ctx.index % 7));
    let name = *ctx.src.pick(&["missing.html", "d\u{fc}r/x.html", "none/of/these", "a b"]);
    let (path, what) = match which {
        0 => (scratch_file(name), "missing file"),
        1 => {
            let p = scratch_file("dir");
            let _ = fs::create_dir(&p);
            (p, "directory")
        }
        2 => {
            let f = scratch_file("plain");
            fs::write(&f, "x").map_err(|e| Stop::Harness(e.to_string()))?;
            (f.join("below"), "path below a file")
        }
        _ => (PathBuf::from(""), "empty path"),
    };
    let path = match ctx.src.below(4) {
        0 if which < 3 => path.parent().expect("directory").join(".").join(path.file_name().expect("name")),
        1 if which == 0 => PathBuf::from(format!("./no such directory in {}", std::process::id())).join(name),
        _ => path,
    };
    let mut o = ParseOptions::default();
    if ctx.src.chance(1, 2) {
        o = o.max_input_len(ctx.src.below(20));
    }
    let got = Template::from_file(&path, o);
    ctx.classify(what);
    match (which, got) {
        (1, Err(FileError::Read { path: p, error })) => {
            ensure!(p.as_os_str() == path.as_os_str(), "path is {:?}, expected {:?}", p, path);
            ensure!(error.kind() != std::io::ErrorKind::NotFound, "error {:?} for a directory", error);
        }
        (0, Err(FileError::Open { path: p, error })) | (2, Err(FileError::Open { path: p, error }))
        | (3, Err(FileError::Open { path: p, error })) => {
            ensure!(p.as_os_str() == path.as_os_str(), "path is {:?}, expected {:?}", p, path);
            let want = fs::File::open(&path).err().map(|e| e.kind());
            ensure!(want == Some(error.kind()), "error is {:?}, expected {:?}", error, want);
        }
        (_, other) => return fail(format!("{} gives {:?}", what, other)),
    }
    ctx.note(|| format!("{} {:?}", what, path));
    ctx.nontrivial(true);
    Ok(())
}

/// Input which does not end by itself (up to a harmless amount) must not be read beyond the limit.
fn c07_endless(ctx: &mut Ctx) -> Res {
    const MUCH: usize = 48 << 20;
    let limit = ctx.src.size(3000, 70_000);
    ctx.input(&limit);
    let (reader, mut writer) = std::io::pipe().map_err(|e| Stop::Harness(format!("pipe: {}", e)))?;
    use std::os::fd::AsRawFd;
    let path = format!("/proc/self/fd/{}", reader.as_raw_fd());
    let unit: &'static [u8] = if ctx.src.chance(1, 2) { b"<a>x</a>" } else { "\u{65e5}\u{fc}xyz".as_bytes() };
    let feeder = std::thread::spawn(move || {
        let chunk: Vec<u8> = unit.iter().cloned().cycle().take(unit.len() * 512).collect();
        let mut sent = 0;
        while sent < MUCH {
            if writer.write_all(&chunk).is_err() {
                break;
            }
            sent += chunk.len();
        }
        sent
    });
    let got = Template::from_file(&path, ParseOptions::default().max_input_len(limit));
    drop(reader);
    let sent = feeder.join().map_err(|_| Stop::Harness("feeder".into()))?;
    match got {
        Err(FileError::Input { error: InputError::LengthLimitExceeded { limit: l }, path: p }) if l == limit => {
            ensure!(p.to_str() == Some(path.as_str()), "error names {:?}, expected {:?}", p, path);
        }
        other => return fail(format!("endless input with limit {} gives {:?}", limit, other.map(|t| short(&t.to_string())))),
    }
    ensure!(
        sent < limit + (8 << 20),
        "{} bytes of endless input were consumed with a limit of {} bytes",
        sent,
        limit
    );
    ctx.note(|| format!("endless pipe with limit {}", limit));
    ctx.classify("endless input");
    ctx.nontrivial(true);
    Ok(())
}

#[allow(dead_code)]
pub fn kind_of(e: &PErr) -> &'static str { e.kind }

pub fn checks() -> Vec<Check> {
    let none: &'static [&'static str] = &[];
    vec![
        Check {
            id: "C01",
            level: "exploration",
            rule: "documents generated as trees and written with random formatting, their mutations, planted defects, token soups, raw-text puzzles, and all sequences of up to L tokens of an 18-token alphabet; compared with an independent reference parser. Non-trivial: the text is rejected, or accepted with 2+ pieces",
            parts: vec![
                part("documents", 250_000, 2_500_000, c01_valid),
                part("mutated documents", 500_000, 6_000_000, c01_mutated),
                part("planted defects", 250_000, 3_000_000, c01_planted),
                part("raw text", 250_000, 3_000_000, c01_raw),
                part("token soup", 700_000, 8_000_000, c01_soup),
                part("long runs", 12_000, 120_000, c01_runs),
                part("all short token sequences", sequences(5), sequences(6), c01_exhaustive),
            ],
            assumptions: &["the reference parser (harness/src/refparse.rs) states the dialect correctly"],
            findings: vec![],
            exhaustive_parts: &["all short token sequences"],
        },
        Check {
            id: "C02",
            level: "exploration",
            rule: "documents generated as trees, written with two random formattings each; the rendering must equal the canonical rendering of the tree. Non-trivial: 2+ pieces",
            parts: vec![
                part("documents", 300_000, 4_000_000, c02_documents),
                part("attributes", 200_000, 2_500_000, c02_attributes),
                part("texts", 150_000, 1_500_000, c02_texts),
                part("accepted soup", 600_000, 6_000_000, c02_soup),
                part("long runs", 12_000, 120_000, c02_runs),
            ],
            assumptions: none,
            findings: vec![],
            exhaustive_parts: &[],
        },
        Check {
            id: "C03",
            level: "exploration",
            rule: "texts accepted by the parser (generated documents, soups, mutations), parsed, rendered, parsed again, compared, and both transformed by a random program. Non-trivial: 2+ pieces",
            parts: vec![
                part("documents", 250_000, 3_000_000, c03_documents),
                part("raw texts and comments", 200_000, 2_500_000, c03_raw),
                part("accepted texts", 900_000, 9_000_000, c03_accepted),
                part("long runs", 12_000, 120_000, c03_runs),
            ],
            assumptions: none,
            findings: vec![(
                "F2",
                "an element named '!doctype' or '!--...' renders as a comment or doctype: `< !doctype html></!doctype>`",
                f2_still_fails,
            )],
            exhaustive_parts: &[],
        },
        Check {
            id: "C05",
            level: "exploration",
            rule: "rejected texts: mutated and defect-planted documents with multi-byte characters and line breaks, unclosed or misclosed nesting, token soups, all short token sequences behind a multi-byte line, errors past 128 to 131072 lines, columns, bytes or elements. Every location is recomputed from the input and compared with the reference parser. Non-trivial: some location is not the start of the input",
            parts: vec![
                part("mutated documents", 500_000, 6_000_000, c05_mutated),
                part("planted defects", 300_000, 3_000_000, c05_planted),
                part("unclosed elements", 300_000, 3_000_000, c05_unclosed),
                part("token soup", 500_000, 6_000_000, c05_soup),
                part("errors far into the input", 6_000, 60_000, c05_far),
                part("all short token sequences", sequences(4), sequences(5), c05_exhaustive),
            ],
            assumptions: &["the reference parser states which construct an error is about"],
            findings: vec![],
            exhaustive_parts: &["all short token sequences"],
        },
        Check {
            id: "C06",
            level: "exploration",
            rule: "documents, mutations and soups against depth limits swept around the document's depth and length limits around its size, up to depth 65540, options made in random ways; compared with the reference parser under the same limits. Non-trivial: some limit is set",
            parts: vec![
                part("limit sweep", 60_000, 700_000, c06_sweep),
                part("random limits", 400_000, 4_000_000, c06_random),
                part("void and self-closed elements at the limit", 300_000, 3_000_000, c06_shallow),
                part("deep documents and large limits", 6_000, 60_000, c06_far),
                part("limits of files", 40_000, 400_000, c06_files),
            ],
            assumptions: none,
            findings: vec![],
            exhaustive_parts: &[],
        },
        Check {
            id: "C07",
            level: "exploration",
            rule: "files written to a scratch directory: exact sizes around read-buffer boundaries with multi-byte characters across them, generated documents, invalid UTF-8 at chosen places, missing and unreadable paths, endless pipes; compared with parsing the same text. Non-trivial: more than 3 bytes, or a fault",
            parts: vec![
                part("sizes around buffers", 24_000, 250_000, c07_sizes),
                part("documents", 80_000, 800_000, c07_documents),
                part("bytes", 30_000, 300_000, c07_bytes),
                part("faults", 4_000, 20_000, c07_faults),
                part("endless input", 300, 2_000, c07_endless),
            ],
            assumptions: &["/proc/self/fd is available for handing over pipes as paths", "when a file is both too long and not UTF-8, either error is allowed"],
            findings: vec![],
            exhaustive_parts: &[],
        },
    ]
}
